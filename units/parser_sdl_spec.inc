// ---- type system documents --------------------------------------------------------------------------
// The context parameter C (a phantom) is erased by the substitutions below; the definition-side `Directives`/`Directive`
// wrappers are renamed DDirectives/DDirective.
//@subst Directives :: from ==> DDirectives :: from_
//@subst directives . map ( DDirectives :: from_ ) ==> dd_from ( directives )
//@subst bluejay_core :: OperationType ==> CoreOperationType
//@subst PhantomData < C > ==> ()
//@subst PhantomData ==> ()
//@subst < C > ==> < 'a >
//@subst crate :: ast :: ConstDirectives ==> ConstDirectives
//@include sdl_io.inc
//@known new is_empty merge push parse_builtin from_ name is_builtin count_ parse_def_scalar parse_def_object parse_def_input parse_def_enum parse_def_union parse_def_interface parse_def_schema parse_def_directive next_definition_identifier insert_builtin_scalar_definitions insert_builtin_directive_definitions add_query_root_fields definition_count

//@item src=bluejay-parser/src/ast/definition/directive.rs name=Directive subst="pub struct Directive ==> pub struct DDirective;;ast :: Directive ==> Directive;;Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/directive.rs name=Directives subst="pub struct Directives ==> pub struct DDirectives;;Vec < Directive < 'a > > ==> Vec < DDirective < 'a > >"
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@item src=bluejay-core/src/definition/directive_definition.rs name=DirectiveLocation subst="DirectiveLocation ==> CoreDirectiveLocation"
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@item src=bluejay-core/src/builtin_scalar_definition.rs name=BuiltinScalarDefinition
//@pin src=bluejay-core/src/definition/directive_definition.rs text="#[strum(serialize_all = `SCREAMING_SNAKE_CASE`)]"

//@item src=bluejay-parser/src/ast/definition/input_value_definition.rs name=InputValueDefinition subst="Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/arguments_definition.rs name=ArgumentsDefinition subst="Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/field_definition.rs name=FieldDefinition subst="Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/fields_definition.rs name=FieldsDefinition subst="Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/input_fields_definition.rs name=InputFieldsDefinition subst="Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/enum_value_definition.rs name=EnumValueDefinition subst="Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/enum_value_definitions.rs name=EnumValueDefinitions subst="Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/enum_type_definition.rs name=EnumTypeDefinition subst="Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/interface_implementation.rs name=InterfaceImplementation subst="Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/interface_implementations.rs name=InterfaceImplementations subst="Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/union_member_type.rs name=UnionMemberType subst="Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/union_member_types.rs name=UnionMemberTypes subst="Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/custom_scalar_type_definition.rs name=CustomScalarTypeDefinition subst="Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/object_type_definition.rs name=ObjectTypeDefinition subst="Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/interface_type_definition.rs name=InterfaceTypeDefinition subst="Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/input_object_type_definition.rs name=InputObjectTypeDefinition subst="Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/union_type_definition.rs name=UnionTypeDefinition subst="Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/explicit_schema_definition.rs name=RootOperationTypeDefinition subst="operation_type : OperationType ==> operation_type : CoreOperationType;;Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/explicit_schema_definition.rs name=ExplicitSchemaDefinition subst="Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/directive_definition.rs name=DirectiveLocation subst="inner : CoreDirectiveLocation ==> inner : CoreDirectiveLocation;;Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/directive_definition.rs name=DirectiveLocations subst="Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/directive_definition.rs name=DirectiveDefinition subst="Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/type_definition.rs name=TypeDefinition subst="Directives < 'a > ==> DDirectives < 'a >"
//@item src=bluejay-parser/src/ast/definition/definition_document.rs name=DefinitionDocument subst="Directives < 'a > ==> DDirectives < 'a >"
//@pin src=bluejay-parser/src/ast/definition/custom_scalar_type_definition.rs text="pub(crate) const SCALAR_IDENTIFIER: &'static str = `scalar`;"
//@subst Self :: SCALAR_IDENTIFIER ==> "scalar"
//@subst CustomScalarTypeDefinition :: < C > :: SCALAR_IDENTIFIER ==> "scalar"
//@pin src=bluejay-parser/src/ast/definition/object_type_definition.rs text="pub(crate) const TYPE_IDENTIFIER: &'static str = `type`;"
//@subst Self :: TYPE_IDENTIFIER ==> "type"
//@subst ObjectTypeDefinition :: < C > :: TYPE_IDENTIFIER ==> "type"
//@pin src=bluejay-parser/src/ast/definition/input_object_type_definition.rs text="pub(crate) const INPUT_IDENTIFIER: &'static str = `input`;"
//@subst Self :: INPUT_IDENTIFIER ==> "input"
//@subst InputObjectTypeDefinition :: < C > :: INPUT_IDENTIFIER ==> "input"
//@pin src=bluejay-parser/src/ast/definition/enum_type_definition.rs text="pub(crate) const ENUM_IDENTIFIER: &'static str = `enum`;"
//@subst Self :: ENUM_IDENTIFIER ==> "enum"
//@subst EnumTypeDefinition :: < C > :: ENUM_IDENTIFIER ==> "enum"
//@pin src=bluejay-parser/src/ast/definition/union_type_definition.rs text="pub(crate) const UNION_IDENTIFIER: &'static str = `union`;"
//@subst Self :: UNION_IDENTIFIER ==> "union"
//@subst UnionTypeDefinition :: < C > :: UNION_IDENTIFIER ==> "union"
//@pin src=bluejay-parser/src/ast/definition/interface_type_definition.rs text="pub(crate) const INTERFACE_IDENTIFIER: &'static str = `interface`;"
//@subst Self :: INTERFACE_IDENTIFIER ==> "interface"
//@subst InterfaceTypeDefinition :: < C > :: INTERFACE_IDENTIFIER ==> "interface"
//@pin src=bluejay-parser/src/ast/definition/explicit_schema_definition.rs text="pub(crate) const SCHEMA_IDENTIFIER: &'static str = `schema`;"
//@subst Self :: SCHEMA_IDENTIFIER ==> "schema"
//@subst ExplicitSchemaDefinition :: < C > :: SCHEMA_IDENTIFIER ==> "schema"
//@pin src=bluejay-parser/src/ast/definition/directive_definition.rs text="pub(crate) const DIRECTIVE_IDENTIFIER: &'static str = `directive`;"
//@subst Self :: DIRECTIVE_IDENTIFIER ==> "directive"
//@subst DirectiveDefinition :: < C > :: DIRECTIVE_IDENTIFIER ==> "directive"
//@pin src=bluejay-parser/src/ast/definition/directive_definition.rs text="const REPEATABLE_IDENTIFIER: &'static str = `repeatable`;"
//@subst Self :: REPEATABLE_IDENTIFIER ==> "repeatable"
//@pin src=bluejay-parser/src/ast/definition/directive_definition.rs text="const ON_IDENTIFIER: &'static str = `on`;"
//@subst Self :: ON_IDENTIFIER ==> "on"
//@pin src=bluejay-parser/src/ast/definition/interface_implementations.rs text="const IMPLEMENTS_IDENTIFIER: &'static str = `implements`;"
//@subst Self :: IMPLEMENTS_IDENTIFIER ==> "implements"

/// what a definition denotes (spans of composite nodes left out; tokens kept whole). Built-in fields the parser adds
/// (`__typename`, `__schema`, `__type`) are not part of it.
pub struct GIv<'a> { pub desc: Option<StringValue<'a>>, pub name: Name<'a>, pub ty: GType<'a>, pub default_: Option<GValue<'a>>, pub dirs: Seq<GDir<'a>> }
pub struct GFd<'a> { pub desc: Option<StringValue<'a>>, pub name: Name<'a>, pub args: Option<Seq<GIv<'a>>>, pub ty: GType<'a>, pub dirs: Seq<GDir<'a>> }
pub struct GEv<'a> { pub desc: Option<StringValue<'a>>, pub name: Name<'a>, pub dirs: Seq<GDir<'a>> }
#[allow(inconsistent_fields)]
pub enum GTd<'a> {
    Scalar { desc: Option<StringValue<'a>>, name: Name<'a>, dirs: Seq<GDir<'a>> },
    Object { desc: Option<StringValue<'a>>, name: Name<'a>, ifs: Option<Seq<Name<'a>>>, dirs: Seq<GDir<'a>>, fields: Seq<GFd<'a>> },
    Interface { desc: Option<StringValue<'a>>, name: Name<'a>, ifs: Option<Seq<Name<'a>>>, dirs: Seq<GDir<'a>>, fields: Seq<GFd<'a>> },
    Input { desc: Option<StringValue<'a>>, name: Name<'a>, dirs: Seq<GDir<'a>>, fields: Seq<GIv<'a>> },
    Enum { desc: Option<StringValue<'a>>, name: Name<'a>, dirs: Seq<GDir<'a>>, values: Seq<GEv<'a>> },
    Union { desc: Option<StringValue<'a>>, name: Name<'a>, dirs: Seq<GDir<'a>>, members: Seq<Name<'a>> },
}
pub struct GSchema<'a> { pub desc: Option<StringValue<'a>>, pub dirs: Seq<GDir<'a>>, pub roots: Seq<(CoreOperationType, Name<'a>)> }
pub struct GDd<'a> { pub desc: Option<StringValue<'a>>, pub name: Name<'a>, pub args: Option<Seq<GIv<'a>>>, pub repeatable: bool, pub locs: Seq<CoreDirectiveLocation> }
pub struct GSdl<'a> { pub types: Seq<GTd<'a>>, pub schemas: Seq<GSchema<'a>>, pub dirs: Seq<GDd<'a>> }

impl<'a> InputType<'a> { pub open spec fn v(self) -> GType<'a> decreases self { match self { InputType::Base(b, r, _) => GType::Named(b.name, r), InputType::List(i, r, _) => GType::List(Box::new(i.v()), r) } } }
impl<'a> OutputType<'a> { pub open spec fn v(self) -> GType<'a> decreases self { match self { OutputType::Base(b, r, _) => GType::Named(b.name, r), OutputType::List(i, r, _) => GType::List(Box::new(i.v()), r) } } }
pub open spec fn dds_v<'a>(s: Seq<DDirective<'a>>) -> Seq<GDir<'a>> { s.map_values(|x: DDirective<'a>| x.inner.v()) }
pub broadcast proof fn lem_dds_v_push<'a>(s: Seq<DDirective<'a>>, x: DDirective<'a>) ensures #[trigger] dds_v(s.push(x)) == dds_v(s).push(x.inner.v()) { assert(dds_v(s.push(x)) =~= dds_v(s).push(x.inner.v())); }
pub broadcast proof fn lem_dds_v_empty<'a>(s: Seq<DDirective<'a>>) requires s.len() == 0 ensures #[trigger] dds_v(s) == Seq::<GDir<'a>>::empty() { assert(dds_v(s) =~= Seq::<GDir<'a>>::empty()); }
pub open spec fn dd_v<'a>(o: Option<DDirectives<'a>>) -> Seq<GDir<'a>> { match o { Some(d) => dds_v(d.directives@), None => seq![] } }
impl<'a> InputValueDefinition<'a> { pub open spec fn v(self) -> GIv<'a> { GIv { desc: self.description, name: self.name, ty: self.type_.v(), default_: match self.default_value { Some(d) => Some(d.v()), None => None }, dirs: dd_v(self.directives) } } }
pub open spec fn ivs_v<'a>(s: Seq<InputValueDefinition<'a>>) -> Seq<GIv<'a>> { s.map_values(|x: InputValueDefinition<'a>| x.v()) }
pub broadcast proof fn lem_ivs_v_push<'a>(s: Seq<InputValueDefinition<'a>>, x: InputValueDefinition<'a>) ensures #[trigger] ivs_v(s.push(x)) == ivs_v(s).push(x.v()) { assert(ivs_v(s.push(x)) =~= ivs_v(s).push(x.v())); }
pub broadcast proof fn lem_ivs_v_empty<'a>(s: Seq<InputValueDefinition<'a>>) requires s.len() == 0 ensures #[trigger] ivs_v(s) == Seq::<GIv<'a>>::empty() { assert(ivs_v(s) =~= Seq::<GIv<'a>>::empty()); }
pub open spec fn oad_v<'a>(o: Option<ArgumentsDefinition<'a>>) -> Option<Seq<GIv<'a>>> { match o { Some(d) => Some(ivs_v(d.argument_definitions@)), None => None } }
impl<'a> FieldDefinition<'a> { pub open spec fn v(self) -> GFd<'a> { GFd { desc: self.description, name: self.name, args: oad_v(self.arguments_definition), ty: self.type_.v(), dirs: dd_v(self.directives) } } }
pub open spec fn fds_v<'a>(s: Seq<FieldDefinition<'a>>) -> Seq<GFd<'a>> decreases s.len() { if s.len() == 0 { seq![] } else { let x = s.last(); if x.is_builtin { fds_v(s.drop_last()) } else { fds_v(s.drop_last()).push(x.v()) } } }
pub broadcast proof fn lem_fds_v_push<'a>(s: Seq<FieldDefinition<'a>>, x: FieldDefinition<'a>) ensures #[trigger] fds_v(s.push(x)) == (if x.is_builtin { fds_v(s) } else { fds_v(s).push(x.v()) }) { assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn lem_fds_v_empty<'a>(s: Seq<FieldDefinition<'a>>) requires s.len() == 0 ensures #[trigger] fds_v(s) == Seq::<GFd<'a>>::empty() { }
impl<'a> EnumValueDefinition<'a> { pub open spec fn v(self) -> GEv<'a> { GEv { desc: self.description, name: self.name, dirs: dd_v(self.directives) } } }
pub open spec fn evs_v<'a>(s: Seq<EnumValueDefinition<'a>>) -> Seq<GEv<'a>> { s.map_values(|x: EnumValueDefinition<'a>| x.v()) }
pub broadcast proof fn lem_evs_v_push<'a>(s: Seq<EnumValueDefinition<'a>>, x: EnumValueDefinition<'a>) ensures #[trigger] evs_v(s.push(x)) == evs_v(s).push(x.v()) { assert(evs_v(s.push(x)) =~= evs_v(s).push(x.v())); }
pub broadcast proof fn lem_evs_v_empty<'a>(s: Seq<EnumValueDefinition<'a>>) requires s.len() == 0 ensures #[trigger] evs_v(s) == Seq::<GEv<'a>>::empty() { assert(evs_v(s) =~= Seq::<GEv<'a>>::empty()); }
pub open spec fn iis_v<'a>(s: Seq<InterfaceImplementation<'a>>) -> Seq<Name<'a>> { s.map_values(|x: InterfaceImplementation<'a>| x.name) }
pub broadcast proof fn lem_iis_v_push<'a>(s: Seq<InterfaceImplementation<'a>>, x: InterfaceImplementation<'a>) ensures #[trigger] iis_v(s.push(x)) == iis_v(s).push(x.name) { assert(iis_v(s.push(x)) =~= iis_v(s).push(x.name)); }
pub broadcast proof fn lem_iis_v_empty<'a>(s: Seq<InterfaceImplementation<'a>>) requires s.len() == 0 ensures #[trigger] iis_v(s) == Seq::<Name<'a>>::empty() { assert(iis_v(s) =~= Seq::<Name<'a>>::empty()); }
pub open spec fn ums_v<'a>(s: Seq<UnionMemberType<'a>>) -> Seq<Name<'a>> { s.map_values(|x: UnionMemberType<'a>| x.name) }
pub broadcast proof fn lem_ums_v_push<'a>(s: Seq<UnionMemberType<'a>>, x: UnionMemberType<'a>) ensures #[trigger] ums_v(s.push(x)) == ums_v(s).push(x.name) { assert(ums_v(s.push(x)) =~= ums_v(s).push(x.name)); }
pub broadcast proof fn lem_ums_v_empty<'a>(s: Seq<UnionMemberType<'a>>) requires s.len() == 0 ensures #[trigger] ums_v(s) == Seq::<Name<'a>>::empty() { assert(ums_v(s) =~= Seq::<Name<'a>>::empty()); }
pub open spec fn rts_v<'a>(s: Seq<RootOperationTypeDefinition<'a>>) -> Seq<(CoreOperationType, Name<'a>)> { s.map_values(|x: RootOperationTypeDefinition<'a>| (x.operation_type, x.name)) }
pub broadcast proof fn lem_rts_v_push<'a>(s: Seq<RootOperationTypeDefinition<'a>>, x: RootOperationTypeDefinition<'a>) ensures #[trigger] rts_v(s.push(x)) == rts_v(s).push((x.operation_type, x.name)) { assert(rts_v(s.push(x)) =~= rts_v(s).push((x.operation_type, x.name))); }
pub broadcast proof fn lem_rts_v_empty<'a>(s: Seq<RootOperationTypeDefinition<'a>>) requires s.len() == 0 ensures #[trigger] rts_v(s) == Seq::<(CoreOperationType, Name<'a>)>::empty() { assert(rts_v(s) =~= Seq::<(CoreOperationType, Name<'a>)>::empty()); }
pub open spec fn dls_v(s: Seq<DirectiveLocation>) -> Seq<CoreDirectiveLocation> { s.map_values(|x: DirectiveLocation| x.inner) }
pub broadcast proof fn lem_dls_v_push(s: Seq<DirectiveLocation>, x: DirectiveLocation) ensures #[trigger] dls_v(s.push(x)) == dls_v(s).push(x.inner) { assert(dls_v(s.push(x)) =~= dls_v(s).push(x.inner)); }
pub broadcast proof fn lem_dls_v_empty(s: Seq<DirectiveLocation>) requires s.len() == 0 ensures #[trigger] dls_v(s) == Seq::<CoreDirectiveLocation>::empty() { assert(dls_v(s) =~= Seq::<CoreDirectiveLocation>::empty()); }
pub open spec fn oii_v<'a>(o: Option<InterfaceImplementations<'a>>) -> Option<Seq<Name<'a>>> { match o { Some(d) => Some(iis_v(d.interface_implementations@)), None => None } }
impl<'a> CustomScalarTypeDefinition<'a> { pub open spec fn v(self) -> GTd<'a> { GTd::Scalar { desc: self.description, name: self.name, dirs: dd_v(self.directives) } } }
impl<'a> ObjectTypeDefinition<'a> { pub open spec fn v(self) -> GTd<'a> { GTd::Object { desc: self.description, name: self.name, ifs: oii_v(self.interface_implementations), dirs: dd_v(self.directives), fields: fds_v(self.fields_definition.field_definitions@) } } }
impl<'a> InterfaceTypeDefinition<'a> { pub open spec fn v(self) -> GTd<'a> { GTd::Interface { desc: self.description, name: self.name, ifs: oii_v(self.interface_implementations), dirs: dd_v(self.directives), fields: fds_v(self.fields_definition.field_definitions@) } } }
impl<'a> InputObjectTypeDefinition<'a> { pub open spec fn v(self) -> GTd<'a> { GTd::Input { desc: self.description, name: self.name, dirs: dd_v(self.directives), fields: ivs_v(self.input_fields_definition.input_field_definitions@) } } }
impl<'a> EnumTypeDefinition<'a> { pub open spec fn v(self) -> GTd<'a> { GTd::Enum { desc: self.description, name: self.name, dirs: dd_v(self.directives), values: evs_v(self.enum_value_definitions.enum_value_definitions@) } } }
impl<'a> UnionTypeDefinition<'a> { pub open spec fn v(self) -> GTd<'a> { GTd::Union { desc: self.description, name: self.name, dirs: dd_v(self.directives), members: ums_v(self.member_types.union_member_types@) } } }
impl<'a> ExplicitSchemaDefinition<'a> { pub open spec fn v(self) -> GSchema<'a> { GSchema { desc: self.description, dirs: dd_v(self.directives), roots: rts_v(self.root_operation_type_definitions@) } } }
impl<'a> DirectiveDefinition<'a> { pub open spec fn v(self) -> GDd<'a> { GDd { desc: self.description, name: self.name, args: oad_v(self.arguments_definition), repeatable: self.is_repeatable, locs: dls_v(self.locations.0@) } } }
impl<'a> TypeDefinition<'a> {
    pub open spec fn bi(self) -> bool { match self { TypeDefinition::BuiltinScalar(_) => true, TypeDefinition::Object(x) => x.is_builtin, TypeDefinition::Enum(x) => x.is_builtin, _ => false } }
    pub open spec fn v(self) -> GTd<'a> {
        match self {
            TypeDefinition::BuiltinScalar(_) => arbitrary(),
            TypeDefinition::CustomScalar(x) => x.v(), TypeDefinition::Object(x) => x.v(), TypeDefinition::InputObject(x) => x.v(),
            TypeDefinition::Enum(x) => x.v(), TypeDefinition::Union(x) => x.v(), TypeDefinition::Interface(x) => x.v(),
        }
    }
}
pub open spec fn tds_v<'a>(s: Seq<TypeDefinition<'a>>) -> Seq<GTd<'a>> decreases s.len() { if s.len() == 0 { seq![] } else { let x = s.last(); if x.bi() { tds_v(s.drop_last()) } else { tds_v(s.drop_last()).push(x.v()) } } }
pub broadcast proof fn lem_tds_v_push<'a>(s: Seq<TypeDefinition<'a>>, x: TypeDefinition<'a>) ensures #[trigger] tds_v(s.push(x)) == (if x.bi() { tds_v(s) } else { tds_v(s).push(x.v()) }) { assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn lem_tds_v_empty<'a>(s: Seq<TypeDefinition<'a>>) requires s.len() == 0 ensures #[trigger] tds_v(s) == Seq::<GTd<'a>>::empty() { }
pub open spec fn dirdefs_v<'a>(s: Seq<DirectiveDefinition<'a>>) -> Seq<GDd<'a>> decreases s.len() { if s.len() == 0 { seq![] } else { let x = s.last(); if x.is_builtin { dirdefs_v(s.drop_last()) } else { dirdefs_v(s.drop_last()).push(x.v()) } } }
pub broadcast proof fn lem_dirdefs_v_push<'a>(s: Seq<DirectiveDefinition<'a>>, x: DirectiveDefinition<'a>) ensures #[trigger] dirdefs_v(s.push(x)) == (if x.is_builtin { dirdefs_v(s) } else { dirdefs_v(s).push(x.v()) }) { assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn lem_dirdefs_v_empty<'a>(s: Seq<DirectiveDefinition<'a>>) requires s.len() == 0 ensures #[trigger] dirdefs_v(s) == Seq::<GDd<'a>>::empty() { }
pub open spec fn schemas_v<'a>(s: Seq<ExplicitSchemaDefinition<'a>>) -> Seq<GSchema<'a>> { s.map_values(|x: ExplicitSchemaDefinition<'a>| x.v()) }
pub broadcast proof fn lem_schemas_v_push<'a>(s: Seq<ExplicitSchemaDefinition<'a>>, x: ExplicitSchemaDefinition<'a>) ensures #[trigger] schemas_v(s.push(x)) == schemas_v(s).push(x.v()) { assert(schemas_v(s.push(x)) =~= schemas_v(s).push(x.v())); }
pub broadcast proof fn lem_schemas_v_empty<'a>(s: Seq<ExplicitSchemaDefinition<'a>>) requires s.len() == 0 ensures #[trigger] schemas_v(s) == Seq::<GSchema<'a>>::empty() { assert(schemas_v(s) =~= Seq::<GSchema<'a>>::empty()); }
impl<'a> DefinitionDocument<'a> { pub open spec fn v(self) -> GSdl<'a> { GSdl { types: tds_v(self.type_definitions@), schemas: schemas_v(self.schema_definitions@), dirs: dirdefs_v(self.directive_definitions@) } } }
broadcast group sdl_group { lem_dds_v_push, lem_dds_v_empty, lem_ivs_v_push, lem_ivs_v_empty, lem_fds_v_push, lem_fds_v_empty, lem_evs_v_push, lem_evs_v_empty, lem_iis_v_push, lem_iis_v_empty, lem_ums_v_push, lem_ums_v_empty, lem_rts_v_push, lem_rts_v_empty, lem_dls_v_push, lem_dls_v_empty, lem_tds_v_push, lem_tds_v_empty, lem_dirdefs_v_push, lem_dirdefs_v_empty, lem_schemas_v_push, lem_schemas_v_empty }
// strum-derived EnumString with serialize_all = SCREAMING_SNAKE_CASE (assumed; the derive attribute is pinned, the variants are extracted)
pub open spec fn core_loc(s: Seq<char>) -> Option<CoreDirectiveLocation> {
    if s == "QUERY"@ { Some(CoreDirectiveLocation::Query) } else if s == "MUTATION"@ { Some(CoreDirectiveLocation::Mutation) } else if s == "SUBSCRIPTION"@ { Some(CoreDirectiveLocation::Subscription) } else if s == "FIELD"@ { Some(CoreDirectiveLocation::Field) } else if s == "FRAGMENT_DEFINITION"@ { Some(CoreDirectiveLocation::FragmentDefinition) } else if s == "FRAGMENT_SPREAD"@ { Some(CoreDirectiveLocation::FragmentSpread) } else if s == "INLINE_FRAGMENT"@ { Some(CoreDirectiveLocation::InlineFragment) } else if s == "VARIABLE_DEFINITION"@ { Some(CoreDirectiveLocation::VariableDefinition) } else if s == "SCHEMA"@ { Some(CoreDirectiveLocation::Schema) } else if s == "SCALAR"@ { Some(CoreDirectiveLocation::Scalar) } else if s == "OBJECT"@ { Some(CoreDirectiveLocation::Object) } else if s == "FIELD_DEFINITION"@ { Some(CoreDirectiveLocation::FieldDefinition) } else if s == "ARGUMENT_DEFINITION"@ { Some(CoreDirectiveLocation::ArgumentDefinition) } else if s == "INTERFACE"@ { Some(CoreDirectiveLocation::Interface) } else if s == "UNION"@ { Some(CoreDirectiveLocation::Union) } else if s == "ENUM"@ { Some(CoreDirectiveLocation::Enum) } else if s == "ENUM_VALUE"@ { Some(CoreDirectiveLocation::EnumValue) } else if s == "INPUT_OBJECT"@ { Some(CoreDirectiveLocation::InputObject) } else if s == "INPUT_FIELD_DEFINITION"@ { Some(CoreDirectiveLocation::InputFieldDefinition) } else { None }
}
impl CoreDirectiveLocation {
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Result<CoreDirectiveLocation, ()>)
        ensures match core_loc(s@) { Some(o) => r == Ok::<_, ()>(o), None => r is Err } { unimplemented!() }
}
//@subst CoreDirectiveLocation :: POSSIBLE_VALUES ==> possible_values_static ( )
//@subst OperationType :: POSSIBLE_VALUES ==> possible_values_static ( )
//@subst OperationType :: from_str ==> CoreOperationType :: try_from_str
// `Option<ConstDirectives>::map(Directives::from)` with From written out: wraps every directive, in order (std iterators)
#[verifier::external_body]
pub fn dd_from<'a>(o: Option<Directives<'a, true>>) -> (r: Option<DDirectives<'a>>) ensures r is Some <==> o is Some, dd_v(r) == odirs_v(o) { unimplemented!() }
//@pin src=bluejay-parser/src/ast/definition/directive.rs text="directives: value.into_iter().map(Directive::from).collect(),"

// Grammar (October 2021): 3.3 schema, 3.5 scalars, 3.6 objects, 3.6.1 arguments, 3.7 interfaces, 3.8 unions, 3.9 enums,
// 3.10 input objects, 3.13 directives. Bodies are required, as this parser documents.
pub open spec fn g_desc<'a>(t: Seq<Tok<'a>>) -> (Option<StringValue<'a>>, Seq<Tok<'a>>) { match t_str(t) { Some((s, t1)) => (Some(s), t1), None => (None, t) } }
pub open spec fn g_odirs<'a>(t: Seq<Tok<'a>>) -> R<'a, Seq<GDir<'a>>> { g_dirs(t, true, seq![]) }
pub open spec fn g_iv<'a>(t: Seq<Tok<'a>>) -> R<'a, GIv<'a>> {
    let (desc, t1) = g_desc(t);
    match t_name(t1) { None => None, Some((name, t2)) => match t_punct(t2, PunctuatorType::Colon) { None => None, Some((_, t3)) => match g_type(t3) { None => None, Some((ty, t4)) =>
        match g_default(t4) { None => None, Some((default_, t5)) => match g_odirs(t5) { None => None, Some((dirs, t6)) => Some((GIv { desc, name, ty, default_, dirs }, t6)) } } } } }
}
pub open spec fn g_ivs_rest<'a>(t: Seq<Tok<'a>>, close: PunctuatorType, acc: Seq<GIv<'a>>) -> R<'a, Seq<GIv<'a>>> decreases t.len() {
    match g_iv(t) { None => None, Some((a, t1)) => match t_punct(t1, close) { Some((_, t2)) => Some((acc.push(a), t2)), None => if t1.len() < t.len() { g_ivs_rest(t1, close, acc.push(a)) } else { None } } }
}
pub open spec fn g_argsdef<'a>(t: Seq<Tok<'a>>) -> R<'a, Seq<GIv<'a>>> { match t_punct(t, PunctuatorType::OpenRoundBracket) { None => None, Some((_, t1)) => g_ivs_rest(t1, PunctuatorType::CloseRoundBracket, seq![]) } }
pub open spec fn g_oargsdef<'a>(t: Seq<Tok<'a>>) -> R<'a, Option<Seq<GIv<'a>>>> {
    if is_punct(t, 0, PunctuatorType::OpenRoundBracket) { match g_argsdef(t) { None => None, Some((a, t1)) => Some((Some(a), t1)) } } else { Some((None, t)) }
}
pub open spec fn g_infields<'a>(t: Seq<Tok<'a>>) -> R<'a, Seq<GIv<'a>>> { match t_punct(t, PunctuatorType::OpenBrace) { None => None, Some((_, t1)) => g_ivs_rest(t1, PunctuatorType::CloseBrace, seq![]) } }
pub open spec fn g_fd<'a>(t: Seq<Tok<'a>>) -> R<'a, GFd<'a>> {
    let (desc, t1) = g_desc(t);
    match t_name(t1) { None => None, Some((name, t2)) => match g_oargsdef(t2) { None => None, Some((args, t3)) => match t_punct(t3, PunctuatorType::Colon) { None => None, Some((_, t4)) => match g_type(t4) { None => None, Some((ty, t5)) =>
        match g_odirs(t5) { None => None, Some((dirs, t6)) => Some((GFd { desc, name, args, ty, dirs }, t6)) } } } } }
}
pub open spec fn g_fds_rest<'a>(t: Seq<Tok<'a>>, acc: Seq<GFd<'a>>) -> R<'a, Seq<GFd<'a>>> decreases t.len() {
    match g_fd(t) { None => None, Some((a, t1)) => match t_punct(t1, PunctuatorType::CloseBrace) { Some((_, t2)) => Some((acc.push(a), t2)), None => if t1.len() < t.len() { g_fds_rest(t1, acc.push(a)) } else { None } } }
}
pub open spec fn g_fields<'a>(t: Seq<Tok<'a>>) -> R<'a, Seq<GFd<'a>>> { match t_punct(t, PunctuatorType::OpenBrace) { None => None, Some((_, t1)) => g_fds_rest(t1, seq![]) } }
/// EnumValue: Name but not true, false or null
pub open spec fn g_ev<'a>(t: Seq<Tok<'a>>) -> R<'a, GEv<'a>> {
    let (desc, t1) = g_desc(t);
    match t_name(t1) { None => None, Some((name, t2)) => if name.value@ == "null"@ || name.value@ == "true"@ || name.value@ == "false"@ { None } else {
        match g_odirs(t2) { None => None, Some((dirs, t3)) => Some((GEv { desc, name, dirs }, t3)) } } }
}
pub open spec fn g_evs_rest<'a>(t: Seq<Tok<'a>>, acc: Seq<GEv<'a>>) -> R<'a, Seq<GEv<'a>>> decreases t.len() {
    match g_ev(t) { None => None, Some((a, t1)) => match t_punct(t1, PunctuatorType::CloseBrace) { Some((_, t2)) => Some((acc.push(a), t2)), None => if t1.len() < t.len() { g_evs_rest(t1, acc.push(a)) } else { None } } }
}
pub open spec fn g_values<'a>(t: Seq<Tok<'a>>) -> R<'a, Seq<GEv<'a>>> { match t_punct(t, PunctuatorType::OpenBrace) { None => None, Some((_, t1)) => g_evs_rest(t1, seq![]) } }
pub open spec fn g_oskip<'a>(t: Seq<Tok<'a>>, p: PunctuatorType) -> Seq<Tok<'a>> { match t_punct(t, p) { Some((_, t1)) => t1, None => t } }
/// Name (sep Name)*
pub open spec fn g_names<'a>(t: Seq<Tok<'a>>, sep: PunctuatorType, acc: Seq<Name<'a>>) -> R<'a, Seq<Name<'a>>> decreases t.len() {
    match t_name(t) { None => None, Some((n, t1)) => g_names_more(t1, sep, acc.push(n)) }
}
/// (sep Name)*
pub open spec fn g_names_more<'a>(t: Seq<Tok<'a>>, sep: PunctuatorType, acc: Seq<Name<'a>>) -> R<'a, Seq<Name<'a>>> decreases t.len() {
    match t_punct(t, sep) { None => Some((acc, t)), Some((_, t1)) => match t_name(t1) { None => None, Some((n, t2)) => if t2.len() < t.len() { g_names_more(t2, sep, acc.push(n)) } else { None } } }
}
pub open spec fn g_ifs<'a>(t: Seq<Tok<'a>>) -> R<'a, Seq<Name<'a>>> { match t_kw(t, "implements"@) { None => None, Some((_, t1)) => g_names(g_oskip(t1, PunctuatorType::Ampersand), PunctuatorType::Ampersand, seq![]) } }
pub open spec fn g_oifs<'a>(t: Seq<Tok<'a>>) -> R<'a, Option<Seq<Name<'a>>>> { if is_kw(t, 0, "implements"@) { match g_ifs(t) { None => None, Some((a, t1)) => Some((Some(a), t1)) } } else { Some((None, t)) } }
pub open spec fn g_members<'a>(t: Seq<Tok<'a>>) -> R<'a, Seq<Name<'a>>> { g_names(g_oskip(t, PunctuatorType::Pipe), PunctuatorType::Pipe, seq![]) }
pub open spec fn g_loc<'a>(t: Seq<Tok<'a>>) -> R<'a, CoreDirectiveLocation> { match t_name(t) { None => None, Some((n, t1)) => match core_loc(n.value@) { None => None, Some(l) => Some((l, t1)) } } }
pub open spec fn g_locs_more<'a>(t: Seq<Tok<'a>>, acc: Seq<CoreDirectiveLocation>) -> R<'a, Seq<CoreDirectiveLocation>> decreases t.len() {
    match t_punct(t, PunctuatorType::Pipe) { None => Some((acc, t)), Some((_, t1)) => match g_loc(t1) { None => None, Some((n, t2)) => if t2.len() < t.len() { g_locs_more(t2, acc.push(n)) } else { None } } }
}
pub open spec fn g_locs<'a>(t: Seq<Tok<'a>>) -> R<'a, Seq<CoreDirectiveLocation>> { match g_loc(g_oskip(t, PunctuatorType::Pipe)) { None => None, Some((n, t1)) => g_locs_more(t1, seq![].push(n)) } }
/// Description? keyword Name
pub open spec fn g_head<'a>(t: Seq<Tok<'a>>, kw: Seq<char>) -> R<'a, (Option<StringValue<'a>>, Name<'a>)> {
    let (desc, t1) = g_desc(t);
    match t_kw(t1, kw) { None => None, Some((_, t2)) => match t_name(t2) { None => None, Some((n, t3)) => Some(((desc, n), t3)) } }
}
pub open spec fn g_scalar<'a>(t: Seq<Tok<'a>>) -> R<'a, GTd<'a>> { match g_head(t, "scalar"@) { None => None, Some(((desc, name), t1)) => match g_odirs(t1) { None => None, Some((dirs, t2)) => Some((GTd::Scalar { desc, name, dirs }, t2)) } } }
pub open spec fn g_object_td<'a>(t: Seq<Tok<'a>>) -> R<'a, GTd<'a>> { match g_head(t, "type"@) { None => None, Some(((desc, name), t1)) => match g_oifs(t1) { None => None, Some((ifs, t2)) => match g_odirs(t2) { None => None, Some((dirs, t3)) =>
    match g_fields(t3) { None => None, Some((fields, t4)) => Some((GTd::Object { desc, name, ifs, dirs, fields }, t4)) } } } } }
pub open spec fn g_interface<'a>(t: Seq<Tok<'a>>) -> R<'a, GTd<'a>> { match g_head(t, "interface"@) { None => None, Some(((desc, name), t1)) => match g_oifs(t1) { None => None, Some((ifs, t2)) => match g_odirs(t2) { None => None, Some((dirs, t3)) =>
    match g_fields(t3) { None => None, Some((fields, t4)) => Some((GTd::Interface { desc, name, ifs, dirs, fields }, t4)) } } } } }
pub open spec fn g_input<'a>(t: Seq<Tok<'a>>) -> R<'a, GTd<'a>> { match g_head(t, "input"@) { None => None, Some(((desc, name), t1)) => match g_odirs(t1) { None => None, Some((dirs, t3)) =>
    match g_infields(t3) { None => None, Some((fields, t4)) => Some((GTd::Input { desc, name, dirs, fields }, t4)) } } } }
pub open spec fn g_enum<'a>(t: Seq<Tok<'a>>) -> R<'a, GTd<'a>> { match g_head(t, "enum"@) { None => None, Some(((desc, name), t1)) => match g_odirs(t1) { None => None, Some((dirs, t3)) =>
    match g_values(t3) { None => None, Some((values, t4)) => Some((GTd::Enum { desc, name, dirs, values }, t4)) } } } }
pub open spec fn g_union<'a>(t: Seq<Tok<'a>>) -> R<'a, GTd<'a>> { match g_head(t, "union"@) { None => None, Some(((desc, name), t1)) => match g_odirs(t1) { None => None, Some((dirs, t3)) =>
    match t_punct(t3, PunctuatorType::Equals) { None => None, Some((_, t4)) => match g_members(t4) { None => None, Some((members, t5)) => Some((GTd::Union { desc, name, dirs, members }, t5)) } } } } }
pub open spec fn g_root<'a>(t: Seq<Tok<'a>>) -> R<'a, (CoreOperationType, Name<'a>)> {
    match t_name(t) { None => None, Some((n, t1)) => match core_op(n.value@) { None => None, Some(op) => match t_punct(t1, PunctuatorType::Colon) { None => None, Some((_, t2)) => match t_name(t2) { None => None, Some((name, t3)) => Some(((op, name), t3)) } } } }
}
pub open spec fn g_roots_rest<'a>(t: Seq<Tok<'a>>, acc: Seq<(CoreOperationType, Name<'a>)>) -> R<'a, Seq<(CoreOperationType, Name<'a>)>> decreases t.len() {
    match g_root(t) { None => None, Some((a, t1)) => match t_punct(t1, PunctuatorType::CloseBrace) { Some((_, t2)) => Some((acc.push(a), t2)), None => if t1.len() < t.len() { g_roots_rest(t1, acc.push(a)) } else { None } } }
}
pub open spec fn g_schema<'a>(t: Seq<Tok<'a>>) -> R<'a, GSchema<'a>> {
    let (desc, t1) = g_desc(t);
    match t_kw(t1, "schema"@) { None => None, Some((_, t2)) => match g_odirs(t2) { None => None, Some((dirs, t3)) => match t_punct(t3, PunctuatorType::OpenBrace) { None => None, Some((_, t4)) =>
        match g_roots_rest(t4, seq![]) { None => None, Some((roots, t5)) => Some((GSchema { desc, dirs, roots }, t5)) } } } }
}
pub open spec fn g_orep<'a>(t: Seq<Tok<'a>>) -> (bool, Seq<Tok<'a>>) { match t_kw(t, "repeatable"@) { Some((_, t1)) => (true, t1), None => (false, t) } }
pub open spec fn g_dirdef<'a>(t: Seq<Tok<'a>>) -> R<'a, GDd<'a>> {
    let (desc, t1) = g_desc(t);
    match t_kw(t1, "directive"@) { None => None, Some((_, t2)) => match t_punct(t2, PunctuatorType::At) { None => None, Some((_, t3)) => match t_name(t3) { None => None, Some((name, t4)) =>
        match g_oargsdef(t4) { None => None, Some((args, t5)) => { let (repeatable, t6) = g_orep(t5); match t_kw(t6, "on"@) { None => None, Some((_, t7)) => match g_locs(t7) { None => None, Some((locs, t8)) => Some((GDd { desc, name, args, repeatable, locs }, t8)) } } } } } } }
}
/// Document: one or more type system definitions up to the end of the input; definitions are told apart by the keyword
/// after the optional description
pub open spec fn g_kwpos<'a>(t: Seq<Tok<'a>>) -> int { if t.len() > 0 && t[0] is StringValue { 1 } else { 0 } }
pub open spec fn kw_at<'a>(t: Seq<Tok<'a>>, kw: Seq<char>) -> bool { is_kw(t, g_kwpos(t), kw) }
pub open spec fn g_td<'a>(t: Seq<Tok<'a>>) -> R<'a, GTd<'a>> {
    if kw_at(t, "scalar"@) { g_scalar(t) } else if kw_at(t, "type"@) { g_object_td(t) } else if kw_at(t, "input"@) { g_input(t) } else if kw_at(t, "enum"@) { g_enum(t) }
    else if kw_at(t, "union"@) { g_union(t) } else if kw_at(t, "interface"@) { g_interface(t) } else { None }
}
pub open spec fn is_td<'a>(t: Seq<Tok<'a>>) -> bool { kw_at(t, "scalar"@) || kw_at(t, "type"@) || kw_at(t, "input"@) || kw_at(t, "enum"@) || kw_at(t, "union"@) || kw_at(t, "interface"@) }
pub open spec fn g_sdl<'a>(t: Seq<Tok<'a>>, acc: GSdl<'a>) -> Option<GSdl<'a>> decreases t.len() {
    if t.len() == 0 { Some(acc) }
    else if is_td(t) { match g_td(t) { None => None, Some((d, t1)) => if t1.len() < t.len() { g_sdl(t1, GSdl { types: acc.types.push(d), ..acc }) } else { None } } }
    else if kw_at(t, "schema"@) { match g_schema(t) { None => None, Some((d, t1)) => if t1.len() < t.len() { g_sdl(t1, GSdl { schemas: acc.schemas.push(d), ..acc }) } else { None } } }
    else if kw_at(t, "directive"@) { match g_dirdef(t) { None => None, Some((d, t1)) => if t1.len() < t.len() { g_sdl(t1, GSdl { dirs: acc.dirs.push(d), ..acc }) } else { None } } }
    else { None }
}
pub open spec fn g0<'a>() -> GSdl<'a> { GSdl { types: seq![], schemas: seq![], dirs: seq![] } }

