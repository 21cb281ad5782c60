//@include parser_sdl_spec.inc
//@fn src=bluejay-parser/src/ast/definition/input_type.rs impl=FromTokens:InputType fn=from_tokens header="impl<'a> InputType<'a>" id=InputType::from_tokens
    ensures
        match g_type(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
    decreases old($0).toks().len()
//@ at start
    broadcast use {values_group, sdl_group};
//@end
//@fn src=bluejay-parser/src/ast/definition/output_type.rs impl=BaseOutputType fn=new header="impl<'a> BaseOutputType<'a>" id=BaseOutputType::new
    ensures r.name == $0
//@end
//@fn src=bluejay-parser/src/ast/definition/output_type.rs impl=FromTokens:OutputType fn=from_tokens header="impl<'a> OutputType<'a>" id=OutputType::from_tokens
    ensures
        match g_type(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
    decreases old($0).toks().len()
//@ at start
    broadcast use {values_group, sdl_group};
//@end
//@fn src=bluejay-parser/src/ast/definition/input_value_definition.rs impl=FromTokens:InputValueDefinition fn=from_tokens header="impl<'a> InputValueDefinition<'a>" id=InputValueDefinition::from_tokens
    ensures
        match g_iv(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@end
//@fn src=bluejay-parser/src/ast/definition/arguments_definition.rs impl=FromTokens:ArgumentsDefinition fn=from_tokens header="impl<'a> ArgumentsDefinition<'a>" id=ArgumentsDefinition::from_tokens
    ensures
        match g_argsdef(old($0).toks()) { Some((v, rest)) => r is Ok && ivs_v(r->Ok_0.argument_definitions@) == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@ loop 0
    invariant_except_break $brk is None,
        g_argsdef(old($0).toks()) == g_ivs_rest($0.toks(), PunctuatorType::CloseRoundBracket, ivs_v($let(Vec)@)),
    invariant $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(),
    ensures $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(), $brk is Some, g_argsdef(old($0).toks()) == Some((ivs_v($let(Vec)@), $0.toks())),
    decreases $0.toks().len()
//@end
//@fn src=bluejay-parser/src/ast/definition/arguments_definition.rs impl=IsMatch:ArgumentsDefinition fn=is_match header="impl<'a> ArgumentsDefinition<'a>" id=ArgumentsDefinition::is_match
    ensures r == is_punct(old($0).toks(), 0, PunctuatorType::OpenRoundBracket), final($0).toks() == old($0).toks(), final($0).lex_ok() == old($0).lex_ok(),
//@end
impl<'a> FieldDefinition<'a> {
    // `Self::parse(s).unwrap()` of one of the three built-in field texts: assumed not to panic (every run of the harness parses them)
    #[verifier::external_body]
    pub fn parse_builtin(s: &'static str) -> (r: Self) ensures r.v() == text_fd::<'a>(s@) { unimplemented!() }
}
//@subst Self :: parse ( s ) . unwrap ( ) ==> Self :: parse_builtin ( s )

/// the field the text of a built-in stands for (`parse(text).unwrap()`)
pub uninterp spec fn text_fd<'a>(s: Seq<char>) -> GFd<'a>;
pub open spec fn builtin_fd<'a>(f: FieldDefinition<'a>, s: Seq<char>) -> bool { f.is_builtin && f.v() == text_fd::<'a>(s) }
//@fn src=bluejay-parser/src/ast/definition/field_definition.rs impl=FieldDefinition fn=builtin header="impl<'a> FieldDefinition<'a>" id=FieldDefinition::builtin
    ensures builtin_fd(r, $0@)
//@end
//@fn src=bluejay-parser/src/ast/definition/field_definition.rs impl=FieldDefinition fn=__typename header="impl<'a> FieldDefinition<'a>" id=FieldDefinition::__typename
    ensures builtin_fd(r, "__typename: String!"@)
//@end
//@fn src=bluejay-parser/src/ast/definition/field_definition.rs impl=FieldDefinition fn=__schema header="impl<'a> FieldDefinition<'a>" id=FieldDefinition::__schema
    ensures builtin_fd(r, "__schema: __Schema!"@)
//@end
//@fn src=bluejay-parser/src/ast/definition/field_definition.rs impl=FieldDefinition fn=__type header="impl<'a> FieldDefinition<'a>" id=FieldDefinition::__type
    ensures builtin_fd(r, "__type(name: String!): __Type"@)
//@end
//@fn src=bluejay-parser/src/ast/definition/field_definition.rs impl=FromTokens:FieldDefinition fn=from_tokens header="impl<'a> FieldDefinition<'a>" id=FieldDefinition::from_tokens
    ensures
        match g_fd(old($0).toks()) { Some((v, rest)) => r is Ok && !r->Ok_0.is_builtin && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@end
//@fn src=bluejay-parser/src/ast/definition/fields_definition.rs impl=FromTokens:FieldsDefinition fn=from_tokens header="impl<'a> FieldsDefinition<'a>" id=FieldsDefinition::from_tokens
    ensures
        match g_fields(old($0).toks()) { Some((v, rest)) => r is Ok && fds_v(r->Ok_0.field_definitions@) == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@ loop 0
    invariant_except_break $brk is None,
        g_fields(old($0).toks()) == g_fds_rest($0.toks(), fds_v($let(vec)@)),
    invariant $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(),
    ensures $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(), $brk is Some, g_fields(old($0).toks()) == Some((fds_v($let(vec)@), $0.toks())),
    decreases $0.toks().len()
//@end
pub open spec fn query_fields<'a>(a: Seq<FieldDefinition<'a>>, b: Seq<FieldDefinition<'a>>) -> bool {
    b.len() == a.len() + 2 && (forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]) && builtin_fd(b[a.len() as int], "__schema: __Schema!"@) && builtin_fd(b[a.len() as int + 1], "__type(name: String!): __Type"@)
}
//@fn src=bluejay-parser/src/ast/definition/fields_definition.rs impl=FieldsDefinition fn=add_query_root_fields header="impl<'a> FieldsDefinition<'a>" id=FieldsDefinition::add_query_root_fields
    ensures fds_v(final(self).field_definitions@) == fds_v(old(self).field_definitions@), query_fields(old(self).field_definitions@, final(self).field_definitions@), final(self)._span == old(self)._span
//@ at start
    broadcast use sdl_group;
//@end
//@fn src=bluejay-parser/src/ast/definition/fields_definition.rs impl=FieldsDefinition fn=__typename header="impl<'a> FieldsDefinition<'a>" id=FieldsDefinition::__typename
    ensures fds_v(r.field_definitions@) == Seq::<GFd<'a>>::empty(), r.field_definitions@.len() == 1, builtin_fd(r.field_definitions@[0], "__typename: String!"@)
//@ subst Span :: new $x ==> mk_span $x
//@ at start
    broadcast use sdl_group;
//@end
//@fn src=bluejay-parser/src/ast/definition/input_fields_definition.rs impl=FromTokens:InputFieldsDefinition fn=from_tokens header="impl<'a> InputFieldsDefinition<'a>" id=InputFieldsDefinition::from_tokens
    ensures
        match g_infields(old($0).toks()) { Some((v, rest)) => r is Ok && ivs_v(r->Ok_0.input_field_definitions@) == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@ loop 0
    invariant_except_break $brk is None,
        g_infields(old($0).toks()) == g_ivs_rest($0.toks(), PunctuatorType::CloseBrace, ivs_v($let(Vec)@)),
    invariant $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(),
    ensures $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(), $brk is Some, g_infields(old($0).toks()) == Some((ivs_v($let(Vec)@), $0.toks())),
    decreases $0.toks().len()
//@end
//@fn src=bluejay-parser/src/ast/definition/enum_value_definition.rs impl=FromTokens:EnumValueDefinition fn=from_tokens header="impl<'a> EnumValueDefinition<'a>" id=EnumValueDefinition::from_tokens
    ensures
        match g_ev(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@end
//@fn src=bluejay-parser/src/ast/definition/enum_value_definitions.rs impl=FromTokens:EnumValueDefinitions fn=from_tokens header="impl<'a> EnumValueDefinitions<'a>" id=EnumValueDefinitions::from_tokens
    ensures
        match g_values(old($0).toks()) { Some((v, rest)) => r is Ok && evs_v(r->Ok_0.enum_value_definitions@) == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@ loop 0
    invariant_except_break $brk is None,
        g_values(old($0).toks()) == g_evs_rest($0.toks(), evs_v($let(Vec)@)),
    invariant $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(),
    ensures $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(), $brk is Some, g_values(old($0).toks()) == Some((evs_v($let(Vec)@), $0.toks())),
    decreases $0.toks().len()
//@end
//@fn src=bluejay-parser/src/ast/definition/interface_implementation.rs impl=FromTokens:InterfaceImplementation fn=from_tokens header="impl<'a> InterfaceImplementation<'a>" id=InterfaceImplementation::from_tokens
    ensures
        match t_name(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.name == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@end
//@fn src=bluejay-parser/src/ast/definition/interface_implementations.rs impl=FromTokens:InterfaceImplementations fn=from_tokens header="impl<'a> InterfaceImplementations<'a>" id=InterfaceImplementations::from_tokens
    ensures
        match g_ifs(old($0).toks()) { Some((v, rest)) => r is Ok && iis_v(r->Ok_0.interface_implementations@) == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@ loop 0
    invariant g_ifs(old($0).toks()) == g_names_more($0.toks(), PunctuatorType::Ampersand, iis_v($let(vec)@)),
        $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(),
    ensures g_ifs(old($0).toks()) == Some((iis_v($let(vec)@), $0.toks())),
    decreases $0.toks().len()
//@end
//@fn src=bluejay-parser/src/ast/definition/interface_implementations.rs impl=IsMatch:InterfaceImplementations fn=is_match header="impl<'a> InterfaceImplementations<'a>" id=InterfaceImplementations::is_match
    ensures r == is_kw(old($0).toks(), 0, "implements"@), final($0).toks() == old($0).toks(), final($0).lex_ok() == old($0).lex_ok(),
//@end
//@fn src=bluejay-parser/src/ast/definition/union_member_type.rs impl=FromTokens:UnionMemberType fn=from_tokens header="impl<'a> UnionMemberType<'a>" id=UnionMemberType::from_tokens
    ensures
        match t_name(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.name == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@end
//@fn src=bluejay-parser/src/ast/definition/union_member_types.rs impl=FromTokens:UnionMemberTypes fn=from_tokens header="impl<'a> UnionMemberTypes<'a>" id=UnionMemberTypes::from_tokens
    ensures
        match g_members(old($0).toks()) { Some((v, rest)) => r is Ok && ums_v(r->Ok_0.union_member_types@) == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@ loop 0
    invariant g_members(old($0).toks()) == g_names_more($0.toks(), PunctuatorType::Pipe, ums_v($let(vec)@)),
        $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(),
    ensures g_members(old($0).toks()) == Some((ums_v($let(vec)@), $0.toks())),
    decreases $0.toks().len()
//@end
//@fn src=bluejay-parser/src/ast/definition/custom_scalar_type_definition.rs impl=FromTokens:CustomScalarTypeDefinition fn=from_tokens header="impl<'a> CustomScalarTypeDefinition<'a>" id=CustomScalarTypeDefinition::from_tokens
    ensures
        match g_scalar(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok || kw_at(old($0).toks(), "scalar"@) ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@end
//@fn src=bluejay-parser/src/ast/definition/object_type_definition.rs impl=FromTokens:ObjectTypeDefinition fn=from_tokens header="impl<'a> ObjectTypeDefinition<'a>" id=ObjectTypeDefinition::from_tokens
    ensures
        match g_object_td(old($0).toks()) { Some((v, rest)) => r is Ok && !r->Ok_0.is_builtin && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok || kw_at(old($0).toks(), "type"@) ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@end
//@fn src=bluejay-parser/src/ast/definition/interface_type_definition.rs impl=FromTokens:InterfaceTypeDefinition fn=from_tokens header="impl<'a> InterfaceTypeDefinition<'a>" id=InterfaceTypeDefinition::from_tokens
    ensures
        match g_interface(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok || kw_at(old($0).toks(), "interface"@) ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@end
//@fn src=bluejay-parser/src/ast/definition/input_object_type_definition.rs impl=FromTokens:InputObjectTypeDefinition fn=from_tokens header="impl<'a> InputObjectTypeDefinition<'a>" id=InputObjectTypeDefinition::from_tokens
    ensures
        match g_input(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok || kw_at(old($0).toks(), "input"@) ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@end
//@fn src=bluejay-parser/src/ast/definition/enum_type_definition.rs impl=FromTokens:EnumTypeDefinition fn=from_tokens header="impl<'a> EnumTypeDefinition<'a>" id=EnumTypeDefinition::from_tokens
    ensures
        match g_enum(old($0).toks()) { Some((v, rest)) => r is Ok && !r->Ok_0.is_builtin && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok || kw_at(old($0).toks(), "enum"@) ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@end
//@fn src=bluejay-parser/src/ast/definition/union_type_definition.rs impl=FromTokens:UnionTypeDefinition fn=from_tokens header="impl<'a> UnionTypeDefinition<'a>" id=UnionTypeDefinition::from_tokens
    ensures
        match g_union(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok || kw_at(old($0).toks(), "union"@) ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@end
//@fn src=bluejay-parser/src/ast/definition/explicit_schema_definition.rs impl=FromTokens:RootOperationTypeDefinition fn=from_tokens header="impl<'a> RootOperationTypeDefinition<'a>" id=RootOperationTypeDefinition::from_tokens
    ensures
        match g_root(old($0).toks()) { Some((v, rest)) => r is Ok && (r->Ok_0.operation_type, r->Ok_0.name) == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@end
//@fn src=bluejay-parser/src/ast/definition/explicit_schema_definition.rs impl=FromTokens:ExplicitSchemaDefinition fn=from_tokens header="impl<'a> ExplicitSchemaDefinition<'a>" id=ExplicitSchemaDefinition::from_tokens
    ensures
        match g_schema(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok || kw_at(old($0).toks(), "schema"@) ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@ loop 0
    invariant_except_break $brk is None,
        g_schema(old($0).toks()) == (match g_roots_rest($0.toks(), rts_v($let(Vec)@)) { None => None, Some((roots, t5)) => Some((GSchema { desc: $let(next_if_string_value), dirs: odirs_v($let(transpose)), roots }, t5)) }),
    invariant $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(),
    ensures $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(), $brk is Some,
        g_schema(old($0).toks()) == Some((GSchema { desc: $let(next_if_string_value), dirs: odirs_v($let(transpose)), roots: rts_v($let(Vec)@) }, $0.toks())),
    decreases $0.toks().len()
//@end
//@fn src=bluejay-parser/src/ast/definition/directive_definition.rs impl=FromTokens:DirectiveLocation fn=from_tokens header="impl<'a> DirectiveLocation" id=DirectiveLocation::from_tokens
    ensures
        match g_loc(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.inner == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@end
//@fn src=bluejay-parser/src/ast/definition/directive_definition.rs impl=FromTokens:DirectiveLocations fn=from_tokens header="impl<'a> DirectiveLocations" id=DirectiveLocations::from_tokens
    ensures
        match g_locs(old($0).toks()) { Some((v, rest)) => r is Ok && dls_v(r->Ok_0.0@) == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@ loop 0
    invariant g_locs(old($0).toks()) == g_locs_more($0.toks(), dls_v($let(vec)@)),
        $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(),
    ensures g_locs(old($0).toks()) == Some((dls_v($let(vec)@), $0.toks())),
    decreases $0.toks().len()
//@end
//@fn src=bluejay-parser/src/ast/definition/directive_definition.rs impl=FromTokens:DirectiveDefinition fn=from_tokens header="impl<'a> DirectiveDefinition<'a>" id=DirectiveDefinition::from_tokens
    ensures
        match g_dirdef(old($0).toks()) { Some((v, rest)) => r is Ok && !r->Ok_0.is_builtin && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok || kw_at(old($0).toks(), "directive"@) ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use {values_group, sdl_group};
//@end
impl<'a> ObjectTypeDefinition<'a> {
    #[verifier::external_body]
    pub fn parse_builtin(s: &'static str) -> (r: Self) { unimplemented!() }
}
impl<'a> EnumTypeDefinition<'a> {
    #[verifier::external_body]
    pub fn parse_builtin(s: &'static str) -> (r: Self) { unimplemented!() }
}
//@fn src=bluejay-parser/src/ast/definition/object_type_definition.rs impl=ObjectTypeDefinition fn=builtin header="impl<'a> ObjectTypeDefinition<'a>" id=ObjectTypeDefinition::builtin
    ensures r.is_builtin
//@end
//@fn src=bluejay-parser/src/ast/definition/object_type_definition.rs impl=ObjectTypeDefinition fn=__schema header="impl<'a> ObjectTypeDefinition<'a>" id=ObjectTypeDefinition::__schema
    ensures r.is_builtin
//@end
//@fn src=bluejay-parser/src/ast/definition/object_type_definition.rs impl=ObjectTypeDefinition fn=__type header="impl<'a> ObjectTypeDefinition<'a>" id=ObjectTypeDefinition::__type
    ensures r.is_builtin
//@end
//@fn src=bluejay-parser/src/ast/definition/object_type_definition.rs impl=ObjectTypeDefinition fn=__field header="impl<'a> ObjectTypeDefinition<'a>" id=ObjectTypeDefinition::__field
    ensures r.is_builtin
//@end
//@fn src=bluejay-parser/src/ast/definition/object_type_definition.rs impl=ObjectTypeDefinition fn=__input_value header="impl<'a> ObjectTypeDefinition<'a>" id=ObjectTypeDefinition::__input_value
    ensures r.is_builtin
//@end
//@fn src=bluejay-parser/src/ast/definition/object_type_definition.rs impl=ObjectTypeDefinition fn=__enum_value header="impl<'a> ObjectTypeDefinition<'a>" id=ObjectTypeDefinition::__enum_value
    ensures r.is_builtin
//@end
//@fn src=bluejay-parser/src/ast/definition/object_type_definition.rs impl=ObjectTypeDefinition fn=__directive header="impl<'a> ObjectTypeDefinition<'a>" id=ObjectTypeDefinition::__directive
    ensures r.is_builtin
//@end
//@fn src=bluejay-parser/src/ast/definition/enum_type_definition.rs impl=EnumTypeDefinition fn=builtin header="impl<'a> EnumTypeDefinition<'a>" id=EnumTypeDefinition::builtin
    ensures r.is_builtin
//@end
//@fn src=bluejay-parser/src/ast/definition/enum_type_definition.rs impl=EnumTypeDefinition fn=__type_kind header="impl<'a> EnumTypeDefinition<'a>" id=EnumTypeDefinition::__type_kind
    ensures r.is_builtin
//@end
//@fn src=bluejay-parser/src/ast/definition/enum_type_definition.rs impl=EnumTypeDefinition fn=__directive_location header="impl<'a> EnumTypeDefinition<'a>" id=EnumTypeDefinition::__directive_location
    ensures r.is_builtin
//@end
//@fn src=bluejay-parser/src/ast/definition/type_definition.rs impl=From<CustomScalarTypeDefinition<'a,C>>:TypeDefinition fn=from as=from_scalar header="impl<'a> TypeDefinition<'a>" id=TypeDefinition::from<CustomScalarTypeDefinition>
    ensures r == TypeDefinition::CustomScalar($0)
//@ sig fn from_scalar($0: CustomScalarTypeDefinition<'a>) -> (r: Self)
//@end
//@subst Self :: parse_definition :: < _ , CustomScalarTypeDefinition < 'a > > ==> Self :: parse_def_scalar
//@fn src=bluejay-parser/src/ast/definition/type_definition.rs impl=From<ObjectTypeDefinition<'a,C>>:TypeDefinition fn=from as=from_object header="impl<'a> TypeDefinition<'a>" id=TypeDefinition::from<ObjectTypeDefinition>
    ensures r == TypeDefinition::Object($0)
//@ sig fn from_object($0: ObjectTypeDefinition<'a>) -> (r: Self)
//@end
//@subst Self :: parse_definition :: < _ , ObjectTypeDefinition < 'a > > ==> Self :: parse_def_object
//@fn src=bluejay-parser/src/ast/definition/type_definition.rs impl=From<InputObjectTypeDefinition<'a,C>>:TypeDefinition fn=from as=from_input header="impl<'a> TypeDefinition<'a>" id=TypeDefinition::from<InputObjectTypeDefinition>
    ensures r == TypeDefinition::InputObject($0)
//@ sig fn from_input($0: InputObjectTypeDefinition<'a>) -> (r: Self)
//@end
//@subst Self :: parse_definition :: < _ , InputObjectTypeDefinition < 'a > > ==> Self :: parse_def_input
//@fn src=bluejay-parser/src/ast/definition/type_definition.rs impl=From<EnumTypeDefinition<'a,C>>:TypeDefinition fn=from as=from_enum header="impl<'a> TypeDefinition<'a>" id=TypeDefinition::from<EnumTypeDefinition>
    ensures r == TypeDefinition::Enum($0)
//@ sig fn from_enum($0: EnumTypeDefinition<'a>) -> (r: Self)
//@end
//@subst Self :: parse_definition :: < _ , EnumTypeDefinition < 'a > > ==> Self :: parse_def_enum
//@fn src=bluejay-parser/src/ast/definition/type_definition.rs impl=From<UnionTypeDefinition<'a,C>>:TypeDefinition fn=from as=from_union header="impl<'a> TypeDefinition<'a>" id=TypeDefinition::from<UnionTypeDefinition>
    ensures r == TypeDefinition::Union($0)
//@ sig fn from_union($0: UnionTypeDefinition<'a>) -> (r: Self)
//@end
//@subst Self :: parse_definition :: < _ , UnionTypeDefinition < 'a > > ==> Self :: parse_def_union
//@fn src=bluejay-parser/src/ast/definition/type_definition.rs impl=From<InterfaceTypeDefinition<'a,C>>:TypeDefinition fn=from as=from_interface header="impl<'a> TypeDefinition<'a>" id=TypeDefinition::from<InterfaceTypeDefinition>
    ensures r == TypeDefinition::Interface($0)
//@ sig fn from_interface($0: InterfaceTypeDefinition<'a>) -> (r: Self)
//@end
//@subst Self :: parse_definition :: < _ , InterfaceTypeDefinition < 'a > > ==> Self :: parse_def_interface
//@subst Self :: parse_definition :: < _ , ExplicitSchemaDefinition < 'a > > ==> Self :: parse_def_schema
//@subst Self :: parse_definition :: < _ , DirectiveDefinition < 'a > > ==> Self :: parse_def_directive
//@subst CustomScalarTypeDefinition :: < 'a > :: SCALAR_IDENTIFIER ==> "scalar"
//@subst ObjectTypeDefinition :: < 'a > :: TYPE_IDENTIFIER ==> "type"
//@subst InputObjectTypeDefinition :: < 'a > :: INPUT_IDENTIFIER ==> "input"
//@subst EnumTypeDefinition :: < 'a > :: ENUM_IDENTIFIER ==> "enum"
//@subst UnionTypeDefinition :: < 'a > :: UNION_IDENTIFIER ==> "union"
//@subst InterfaceTypeDefinition :: < 'a > :: INTERFACE_IDENTIFIER ==> "interface"
//@subst ExplicitSchemaDefinition :: < 'a > :: SCHEMA_IDENTIFIER ==> "schema"
//@subst DirectiveDefinition :: < 'a > :: DIRECTIVE_IDENTIFIER ==> "directive"
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=parse_definition as=parse_def_scalar header="impl<'a> DefinitionDocument<'a>" id=DefinitionDocument::parse_definition<CustomScalarTypeDefinition>
    ensures
        match g_scalar(old($1).toks()) {
            Some((v, rest)) => tds_v(final($0)@) == tds_v(old($0)@).push(v) && final($0)@.len() == old($0)@.len() + 1 && final($1).toks() == rest && final($2)@ == old($2)@ && !*final($3),
            None => final($0)@ == old($0)@ && *final($3) && (if *old($3) { final($2)@ == old($2)@ } else { final($2)@.len() == old($2)@.len() + 1 }),
        },
        kw_at(old($1).toks(), "scalar"@) ==> final($1).toks().len() < old($1).toks().len(),
        final($1).toks().len() <= old($1).toks().len(), final($1).lex_ok() == old($1).lex_ok(),
//@ subst T :: from_tokens ==> CustomScalarTypeDefinition :: from_tokens
//@ subst definition . into ( ) ==> TypeDefinition :: from_scalar ( definition )
//@ sig fn parse_def_scalar<T0: Tokens<'a>>($0: &mut Vec<TypeDefinition<'a>>, $1: &mut T0, $2: &mut Vec<ParseError>, $3: &mut bool)
//@ at start
    broadcast use sdl_group;
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=parse_definition as=parse_def_object header="impl<'a> DefinitionDocument<'a>" id=DefinitionDocument::parse_definition<ObjectTypeDefinition>
    ensures
        match g_object_td(old($1).toks()) {
            Some((v, rest)) => tds_v(final($0)@) == tds_v(old($0)@).push(v) && final($0)@.len() == old($0)@.len() + 1 && final($1).toks() == rest && final($2)@ == old($2)@ && !*final($3),
            None => final($0)@ == old($0)@ && *final($3) && (if *old($3) { final($2)@ == old($2)@ } else { final($2)@.len() == old($2)@.len() + 1 }),
        },
        kw_at(old($1).toks(), "type"@) ==> final($1).toks().len() < old($1).toks().len(),
        final($1).toks().len() <= old($1).toks().len(), final($1).lex_ok() == old($1).lex_ok(),
//@ subst T :: from_tokens ==> ObjectTypeDefinition :: from_tokens
//@ subst definition . into ( ) ==> TypeDefinition :: from_object ( definition )
//@ sig fn parse_def_object<T0: Tokens<'a>>($0: &mut Vec<TypeDefinition<'a>>, $1: &mut T0, $2: &mut Vec<ParseError>, $3: &mut bool)
//@ at start
    broadcast use sdl_group;
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=parse_definition as=parse_def_input header="impl<'a> DefinitionDocument<'a>" id=DefinitionDocument::parse_definition<InputObjectTypeDefinition>
    ensures
        match g_input(old($1).toks()) {
            Some((v, rest)) => tds_v(final($0)@) == tds_v(old($0)@).push(v) && final($0)@.len() == old($0)@.len() + 1 && final($1).toks() == rest && final($2)@ == old($2)@ && !*final($3),
            None => final($0)@ == old($0)@ && *final($3) && (if *old($3) { final($2)@ == old($2)@ } else { final($2)@.len() == old($2)@.len() + 1 }),
        },
        kw_at(old($1).toks(), "input"@) ==> final($1).toks().len() < old($1).toks().len(),
        final($1).toks().len() <= old($1).toks().len(), final($1).lex_ok() == old($1).lex_ok(),
//@ subst T :: from_tokens ==> InputObjectTypeDefinition :: from_tokens
//@ subst definition . into ( ) ==> TypeDefinition :: from_input ( definition )
//@ sig fn parse_def_input<T0: Tokens<'a>>($0: &mut Vec<TypeDefinition<'a>>, $1: &mut T0, $2: &mut Vec<ParseError>, $3: &mut bool)
//@ at start
    broadcast use sdl_group;
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=parse_definition as=parse_def_enum header="impl<'a> DefinitionDocument<'a>" id=DefinitionDocument::parse_definition<EnumTypeDefinition>
    ensures
        match g_enum(old($1).toks()) {
            Some((v, rest)) => tds_v(final($0)@) == tds_v(old($0)@).push(v) && final($0)@.len() == old($0)@.len() + 1 && final($1).toks() == rest && final($2)@ == old($2)@ && !*final($3),
            None => final($0)@ == old($0)@ && *final($3) && (if *old($3) { final($2)@ == old($2)@ } else { final($2)@.len() == old($2)@.len() + 1 }),
        },
        kw_at(old($1).toks(), "enum"@) ==> final($1).toks().len() < old($1).toks().len(),
        final($1).toks().len() <= old($1).toks().len(), final($1).lex_ok() == old($1).lex_ok(),
//@ subst T :: from_tokens ==> EnumTypeDefinition :: from_tokens
//@ subst definition . into ( ) ==> TypeDefinition :: from_enum ( definition )
//@ sig fn parse_def_enum<T0: Tokens<'a>>($0: &mut Vec<TypeDefinition<'a>>, $1: &mut T0, $2: &mut Vec<ParseError>, $3: &mut bool)
//@ at start
    broadcast use sdl_group;
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=parse_definition as=parse_def_union header="impl<'a> DefinitionDocument<'a>" id=DefinitionDocument::parse_definition<UnionTypeDefinition>
    ensures
        match g_union(old($1).toks()) {
            Some((v, rest)) => tds_v(final($0)@) == tds_v(old($0)@).push(v) && final($0)@.len() == old($0)@.len() + 1 && final($1).toks() == rest && final($2)@ == old($2)@ && !*final($3),
            None => final($0)@ == old($0)@ && *final($3) && (if *old($3) { final($2)@ == old($2)@ } else { final($2)@.len() == old($2)@.len() + 1 }),
        },
        kw_at(old($1).toks(), "union"@) ==> final($1).toks().len() < old($1).toks().len(),
        final($1).toks().len() <= old($1).toks().len(), final($1).lex_ok() == old($1).lex_ok(),
//@ subst T :: from_tokens ==> UnionTypeDefinition :: from_tokens
//@ subst definition . into ( ) ==> TypeDefinition :: from_union ( definition )
//@ sig fn parse_def_union<T0: Tokens<'a>>($0: &mut Vec<TypeDefinition<'a>>, $1: &mut T0, $2: &mut Vec<ParseError>, $3: &mut bool)
//@ at start
    broadcast use sdl_group;
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=parse_definition as=parse_def_interface header="impl<'a> DefinitionDocument<'a>" id=DefinitionDocument::parse_definition<InterfaceTypeDefinition>
    ensures
        match g_interface(old($1).toks()) {
            Some((v, rest)) => tds_v(final($0)@) == tds_v(old($0)@).push(v) && final($0)@.len() == old($0)@.len() + 1 && final($1).toks() == rest && final($2)@ == old($2)@ && !*final($3),
            None => final($0)@ == old($0)@ && *final($3) && (if *old($3) { final($2)@ == old($2)@ } else { final($2)@.len() == old($2)@.len() + 1 }),
        },
        kw_at(old($1).toks(), "interface"@) ==> final($1).toks().len() < old($1).toks().len(),
        final($1).toks().len() <= old($1).toks().len(), final($1).lex_ok() == old($1).lex_ok(),
//@ subst T :: from_tokens ==> InterfaceTypeDefinition :: from_tokens
//@ subst definition . into ( ) ==> TypeDefinition :: from_interface ( definition )
//@ sig fn parse_def_interface<T0: Tokens<'a>>($0: &mut Vec<TypeDefinition<'a>>, $1: &mut T0, $2: &mut Vec<ParseError>, $3: &mut bool)
//@ at start
    broadcast use sdl_group;
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=parse_definition as=parse_def_schema header="impl<'a> DefinitionDocument<'a>" id=DefinitionDocument::parse_definition<ExplicitSchemaDefinition>
    ensures
        match g_schema(old($1).toks()) {
            Some((v, rest)) => schemas_v(final($0)@) == schemas_v(old($0)@).push(v) && final($0)@.len() == old($0)@.len() + 1 && final($1).toks() == rest && final($2)@ == old($2)@ && !*final($3),
            None => final($0)@ == old($0)@ && *final($3) && (if *old($3) { final($2)@ == old($2)@ } else { final($2)@.len() == old($2)@.len() + 1 }),
        },
        kw_at(old($1).toks(), "schema"@) ==> final($1).toks().len() < old($1).toks().len(),
        final($1).toks().len() <= old($1).toks().len(), final($1).lex_ok() == old($1).lex_ok(),
//@ subst T :: from_tokens ==> ExplicitSchemaDefinition :: from_tokens
//@ subst definition . into ( ) ==> definition
//@ sig fn parse_def_schema<T0: Tokens<'a>>($0: &mut Vec<ExplicitSchemaDefinition<'a>>, $1: &mut T0, $2: &mut Vec<ParseError>, $3: &mut bool)
//@ at start
    broadcast use sdl_group;
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=parse_definition as=parse_def_directive header="impl<'a> DefinitionDocument<'a>" id=DefinitionDocument::parse_definition<DirectiveDefinition>
    ensures
        match g_dirdef(old($1).toks()) {
            Some((v, rest)) => dirdefs_v(final($0)@) == dirdefs_v(old($0)@).push(v) && final($0)@.len() == old($0)@.len() + 1 && final($1).toks() == rest && final($2)@ == old($2)@ && !*final($3),
            None => final($0)@ == old($0)@ && *final($3) && (if *old($3) { final($2)@ == old($2)@ } else { final($2)@.len() == old($2)@.len() + 1 }),
        },
        kw_at(old($1).toks(), "directive"@) ==> final($1).toks().len() < old($1).toks().len(),
        final($1).toks().len() <= old($1).toks().len(), final($1).lex_ok() == old($1).lex_ok(),
//@ subst T :: from_tokens ==> DirectiveDefinition :: from_tokens
//@ subst definition . into ( ) ==> definition
//@ sig fn parse_def_directive<T0: Tokens<'a>>($0: &mut Vec<DirectiveDefinition<'a>>, $1: &mut T0, $2: &mut Vec<ParseError>, $3: &mut bool)
//@ at start
    broadcast use sdl_group;
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=new header="impl<'a> DefinitionDocument<'a>" id=DefinitionDocument::new
    ensures r.v() == g0::<'a>()
//@ subst ObjectTypeDefinition :: $x ( ) . into ( ) ==> TypeDefinition :: from_object ( ObjectTypeDefinition :: $x ( ) )
//@ subst EnumTypeDefinition :: $x ( ) . into ( ) ==> TypeDefinition :: from_enum ( EnumTypeDefinition :: $x ( ) )
//@ at start
    broadcast use sdl_group;
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=next_definition_identifier header="impl<'a> DefinitionDocument<'a>" id=DefinitionDocument::next_definition_identifier
    ensures r is Some <==> is_name(old($0).toks(), g_kwpos(old($0).toks())),
        r is Some ==> r->0@ == old($0).toks()[g_kwpos(old($0).toks())]->Name_0.value@,
        final($0).toks() == old($0).toks(), final($0).lex_ok() == old($0).lex_ok(),
//@ subst . map ( AsRef :: as_ref ) ==> . map ( | n | n . as_ref ( ) )
//@ sig fn next_definition_identifier<'t, T0: Tokens<'a>>($0: &'t mut T0) -> (r: Option<&'t str>) where 'a: 't
//@end
//@fn src=bluejay-core/src/definition/type_definition.rs impl=TypeDefinitionReference fn=is_builtin header="impl<'a> TypeDefinition<'a>" id=TypeDefinition::is_builtin
    ensures r == self.bi()
//@ subst otd . is_builtin ( ) ==> otd . is_builtin
//@ subst etd . is_builtin ( ) ==> etd . is_builtin
//@end
impl<'a> TypeDefinition<'a> { pub fn as_ref(&self) -> (r: &Self) ensures *r == *self { self } }
impl<'a> DirectiveDefinition<'a> { pub fn is_builtin(&self) -> (r: bool) ensures r == self.is_builtin { self.is_builtin } }
//@rtype count=val filter=iter iter=iter
//@method iter/0 ==> vi(&$self)
// an iterator over a vector
pub struct VI<'x, T> { pub v: &'x Vec<T>, pub i: usize }
pub fn vi<'x, T>(v: &'x Vec<T>) -> (r: VI<'x, T>) ensures r.v == v, r.i == 0 { VI { v, i: 0 } }
impl<'x, T> VI<'x, T> {
    pub fn next(&mut self) -> (r: Option<&'x T>)
        requires old(self).i <= old(self).v@.len()
        ensures final(self).v == old(self).v, final(self).i <= final(self).v@.len(),
            match r { Some(x) => old(self).i < old(self).v@.len() && *x == old(self).v@[old(self).i as int] && final(self).i == old(self).i + 1, None => old(self).i == old(self).v@.len() && final(self).i == old(self).i }
    { if self.i < self.v.len() { let x = &self.v[self.i]; self.i = self.i + 1; Some(x) } else { None } }
}
pub proof fn lem_take_next<T>(s: Seq<T>, i: int) requires 0 <= i < s.len() ensures s.take(i + 1) == s.take(i).push(s[i]) { assert(s.take(i + 1) =~= s.take(i).push(s[i])); }
pub proof fn lem_dirdefs_mono<'a>(s: Seq<DirectiveDefinition<'a>>, i: int) requires 0 <= i <= s.len() ensures dirdefs_v(s.take(i)).len() <= dirdefs_v(s).len() decreases s.len() - i {
    broadcast use sdl_group;
    if i < s.len() { lem_dirdefs_mono(s, i + 1); lem_take_next(s, i); } else { assert(s.take(i) =~= s); }
}
pub proof fn lem_tds_mono<'a>(s: Seq<TypeDefinition<'a>>, i: int) requires 0 <= i <= s.len() ensures tds_v(s.take(i)).len() <= tds_v(s).len() decreases s.len() - i {
    broadcast use sdl_group;
    if i < s.len() { lem_tds_mono(s, i + 1); lem_take_next(s, i); } else { assert(s.take(i) =~= s); }
}
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=definition_count header="impl<'a> DefinitionDocument<'a>" id=DefinitionDocument::definition_count
    requires tds_v(self.type_definitions@).len() + self.schema_definitions@.len() + dirdefs_v(self.directive_definitions@).len() <= usize::MAX
    ensures r == tds_v(self.type_definitions@).len() + self.schema_definitions@.len() + dirdefs_v(self.directive_definitions@).len()
//@ at start
    broadcast use sdl_group;
    assert(self.directive_definitions@.take(0) =~= seq![]); assert(self.type_definitions@.take(0) =~= seq![]);
//@ loop 0
    invariant $it.v == &self.directive_definitions, $it.i <= self.directive_definitions@.len(), $acc == dirdefs_v(self.directive_definitions@.take($it.i as int)).len(),
        tds_v(self.type_definitions@).len() + self.schema_definitions@.len() + dirdefs_v(self.directive_definitions@).len() <= usize::MAX,
    ensures $it.i == self.directive_definitions@.len(),
    decreases self.directive_definitions@.len() - $it.i
//@ at loop 0 start
    proof { if $it.i < self.directive_definitions@.len() { lem_take_next(self.directive_definitions@, $it.i as int); lem_dirdefs_mono(self.directive_definitions@, $it.i + 1); } else { assert(self.directive_definitions@.take($it.i as int) =~= self.directive_definitions@); } }
//@ loop 1
    invariant $it.v == &self.type_definitions, $it.i <= self.type_definitions@.len(), $acc == tds_v(self.type_definitions@.take($it.i as int)).len(),
        tds_v(self.type_definitions@).len() + self.schema_definitions@.len() + dirdefs_v(self.directive_definitions@).len() <= usize::MAX,
    ensures $it.i == self.type_definitions@.len(),
    decreases self.type_definitions@.len() - $it.i
//@ at loop 1 start
    proof { if $it.i < self.type_definitions@.len() { lem_take_next(self.type_definitions@, $it.i as int); lem_tds_mono(self.type_definitions@, $it.i + 1); } else { assert(self.type_definitions@.take($it.i as int) =~= self.type_definitions@); } }
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=is_empty header="impl<'a> DefinitionDocument<'a>" id=DefinitionDocument::is_empty
    requires n_sdl(self.v()) <= usize::MAX
    ensures r == (self.v() == g0::<'a>())
//@ at start
    proof { if n_sdl(self.v()) == 0 { lem_empty_sdl(self.v()); } }
//@end
pub open spec fn n_sdl<'a>(v: GSdl<'a>) -> nat { v.types.len() + v.schemas.len() + v.dirs.len() }
pub proof fn lem_empty_sdl<'a>(v: GSdl<'a>) requires n_sdl(v) == 0 ensures v == g0::<'a>() { assert(v.types =~= seq![]); assert(v.schemas =~= seq![]); assert(v.dirs =~= seq![]); }

// ---- completion of a parsed document: built-in scalars, directives and introspection fields
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct BMap<V> { x: Vec<V> }
// std HashMap with string keys (assumed), values read off in some order
impl<V> BMap<V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn __ins(&mut self, e: (&str, V)) ensures final(self)@ == old(self)@.insert(e.0@, e.1) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &str) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k@) { unimplemented!() }
    #[verifier::external_body] pub fn into_values(self) -> (r: OI<V>) ensures r.i == 0, vals_of(self@, r.v@) { unimplemented!() }
}
pub open spec fn vals_of<V>(m: Map<Seq<char>, V>, r: Seq<V>) -> bool { exists|ks: Seq<Seq<char>>| values_of(m, ks, r) }
pub open spec fn values_of<V>(m: Map<Seq<char>, V>, ks: Seq<Seq<char>>, r: Seq<V>) -> bool {
    &&& ks.no_duplicates() && ks.len() == r.len()
    &&& forall|i: int| 0 <= i < ks.len() ==> m.contains_key(#[trigger] ks[i]) && m[ks[i]] == r[i]
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> ks.contains(k)
}
#[verifier::external_body]
pub struct BSet<'x> { x: Vec<&'x str> }
impl<'x> BSet<'x> {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn __ins(&mut self, e: &'x str) ensures final(self)@ == old(self)@.insert(e@) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, e: &str) -> (r: bool) ensures r == self@.contains(e@) { unimplemented!() }
}
//@subst HashSet < & str > ==> BSet < '_ >
// an iterator that gives its items away
#[verifier::reject_recursive_types(T)]
pub struct OI<T> { pub v: Vec<T>, pub i: usize }
impl<T: Copy> OI<T> {
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).i <= old(self).v@.len()
        ensures final(self).v == old(self).v, final(self).i <= final(self).v@.len(),
            match r { Some(x) => old(self).i < old(self).v@.len() && x == old(self).v@[old(self).i as int] && final(self).i == old(self).i + 1, None => old(self).i == old(self).v@.len() && final(self).i == old(self).i }
    { if self.i < self.v.len() { let x = self.v[self.i]; self.i = self.i + 1; Some(x) } else { None } }
}
// strum EnumIter / IntoStaticStr (assumed): the variants in order, their names as pinned
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@item src=bluejay-parser/src/ast/definition/directive_definition.rs name=BuiltinDirectiveDefinition
//@pin src=bluejay-parser/src/ast/definition/directive_definition.rs text="#[derive(IntoStaticStr, EnumIter, Clone, Copy, Debug, PartialEq)] #[strum(serialize_all = `camelCase`)] pub enum BuiltinDirectiveDefinition"
pub open spec fn sname(b: BuiltinScalarDefinition) -> Seq<char> { match b { BuiltinScalarDefinition::Int => "Int"@, BuiltinScalarDefinition::Float => "Float"@, BuiltinScalarDefinition::String => "String"@, BuiltinScalarDefinition::Boolean => "Boolean"@, BuiltinScalarDefinition::ID => "ID"@ } }
pub open spec fn dname(b: BuiltinDirectiveDefinition) -> Seq<char> { match b { BuiltinDirectiveDefinition::Deprecated => "deprecated"@, BuiltinDirectiveDefinition::Include => "include"@, BuiltinDirectiveDefinition::OneOf => "oneOf"@, BuiltinDirectiveDefinition::Skip => "skip"@, BuiltinDirectiveDefinition::SpecifiedBy => "specifiedBy"@ } }
pub open spec fn all_scalars() -> Seq<BuiltinScalarDefinition> { seq![BuiltinScalarDefinition::Int, BuiltinScalarDefinition::Float, BuiltinScalarDefinition::String, BuiltinScalarDefinition::Boolean, BuiltinScalarDefinition::ID] }
pub open spec fn all_dirs() -> Seq<BuiltinDirectiveDefinition> { seq![BuiltinDirectiveDefinition::Deprecated, BuiltinDirectiveDefinition::Include, BuiltinDirectiveDefinition::OneOf, BuiltinDirectiveDefinition::Skip, BuiltinDirectiveDefinition::SpecifiedBy] }
#[verifier::external_body] pub fn builtin_scalars() -> (r: OI<BuiltinScalarDefinition>) ensures r.i == 0, r.v@ == all_scalars() { unimplemented!() }
#[verifier::external_body] pub fn builtin_dirs() -> (r: OI<BuiltinDirectiveDefinition>) ensures r.i == 0, r.v@ == all_dirs() { unimplemented!() }
impl BuiltinScalarDefinition { #[verifier::external_body] pub fn name(&self) -> (r: &'static str) ensures r@ == sname(*self) { unimplemented!() } }
impl BuiltinDirectiveDefinition { #[verifier::external_body] pub fn into_(self) -> (r: &'static str) ensures r@ == dname(self) { unimplemented!() } }
//@subst BuiltinScalarDefinition :: iter ( ) ==> builtin_scalars ( )
//@subst BuiltinDirectiveDefinition :: iter ( ) ==> builtin_dirs ( )
//@subst HashMap < & str , $x > ==> BMap < $x >
//@subst HashMap :: from_iter ==> BMap :: from_iter
//@subst HashSet :: from_iter ==> BSet :: from_iter
//@rtype builtin_scalars=iter builtin_dirs=iter into_values=iter vi=iter next=opt
pub proof fn lem_snames(a: BuiltinScalarDefinition, b: BuiltinScalarDefinition) ensures sname(a) == sname(b) ==> a == b {
    reveal_strlit("Int"); reveal_strlit("Float"); reveal_strlit("String"); reveal_strlit("Boolean"); reveal_strlit("ID");
    assert("Int"@.len() == 3); assert("Float"@.len() == 5); assert("String"@.len() == 6); assert("Boolean"@.len() == 7); assert("ID"@.len() == 2);
}
pub proof fn lem_dnames(a: BuiltinDirectiveDefinition, b: BuiltinDirectiveDefinition) ensures dname(a) == dname(b) ==> a == b {
    reveal_strlit("deprecated"); reveal_strlit("include"); reveal_strlit("oneOf"); reveal_strlit("skip"); reveal_strlit("specifiedBy");
    assert("deprecated"@.len() == 10); assert("include"@.len() == 7); assert("oneOf"@.len() == 5); assert("skip"@.len() == 4); assert("specifiedBy"@.len() == 11);
}
impl<'a> TypeDefinition<'a> {
    pub open spec fn nm(self) -> Seq<char> { match self { TypeDefinition::BuiltinScalar(b) => sname(b), TypeDefinition::CustomScalar(x) => x.name.value@, TypeDefinition::Object(x) => x.name.value@, TypeDefinition::InputObject(x) => x.name.value@, TypeDefinition::Enum(x) => x.name.value@, TypeDefinition::Union(x) => x.name.value@, TypeDefinition::Interface(x) => x.name.value@ } }
}
pub open spec fn has_td<'a>(s: Seq<TypeDefinition<'a>>, n: Seq<char>, k: int) -> bool { exists|i: int| 0 <= i < k && (#[trigger] s[i]).nm() == n }
pub open spec fn has_dd<'a>(s: Seq<DirectiveDefinition<'a>>, n: Seq<char>, k: int) -> bool { exists|i: int| 0 <= i < k && (#[trigger] s[i]).name.value@ == n }
/// the built-ins not defined by the document, each once
pub open spec fn missing_scalars<'a>(types: Seq<TypeDefinition<'a>>, added: Seq<BuiltinScalarDefinition>) -> bool {
    added.no_duplicates() && forall|b: BuiltinScalarDefinition| added.contains(b) <==> !#[trigger] has_td(types, sname(b), types.len() as int)
}
pub open spec fn missing_dirs<'a>(dirs: Seq<DirectiveDefinition<'a>>, added: Seq<BuiltinDirectiveDefinition>) -> bool {
    added.no_duplicates() && forall|b: BuiltinDirectiveDefinition| added.contains(b) <==> !#[trigger] has_dd(dirs, dname(b), dirs.len() as int)
}
pub open spec fn with_scalars<'a>(a: Seq<TypeDefinition<'a>>, b: Seq<TypeDefinition<'a>>) -> bool {
    exists|added: Seq<BuiltinScalarDefinition>| missing_scalars(a, added) && #[trigger] tds_tail(a, b, added, added.len() as int)
}
pub open spec fn tds_tail<'a>(a: Seq<TypeDefinition<'a>>, b: Seq<TypeDefinition<'a>>, added: Seq<BuiltinScalarDefinition>, k: int) -> bool {
    &&& b.len() == a.len() + k
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]
    &&& forall|i: int| 0 <= i < k ==> #[trigger] b[a.len() + i] == TypeDefinition::<'a>::BuiltinScalar(added[i])
}
pub open spec fn builtin_dd<'a>(d: DirectiveDefinition<'a>, b: BuiltinDirectiveDefinition) -> bool { d.is_builtin && d.v() == text_dd::<'a>(bdd_text(b)) }
pub open spec fn dds_tail<'a>(a: Seq<DirectiveDefinition<'a>>, b: Seq<DirectiveDefinition<'a>>, added: Seq<BuiltinDirectiveDefinition>, k: int) -> bool {
    &&& b.len() == a.len() + k
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]
    &&& forall|i: int| 0 <= i < k ==> builtin_dd(#[trigger] b[a.len() + i], added[i])
}
pub open spec fn with_dirs<'a>(a: Seq<DirectiveDefinition<'a>>, b: Seq<DirectiveDefinition<'a>>) -> bool {
    exists|added: Seq<BuiltinDirectiveDefinition>| missing_dirs(a, added) && #[trigger] dds_tail(a, b, added, added.len() as int)
}
pub broadcast proof fn lem_missing_scalars<'a>(types: Seq<TypeDefinition<'a>>, m: Map<Seq<char>, BuiltinScalarDefinition>, r: Seq<BuiltinScalarDefinition>)
    requires
        #[trigger] vals_of(m, r),
        forall|k: Seq<char>| #[trigger] m.contains_key(k) <==> (exists|j: int| 0 <= j < 5 && sname(#[trigger] all_scalars()[j]) == k) && !has_td(types, k, types.len() as int),
        forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> sname(m[k]) == k,
    ensures #[trigger] missing_scalars(types, r)
{
    let ks = choose|ks: Seq<Seq<char>>| values_of(m, ks, r);
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { assert(m.contains_key(ks[i]) && m.contains_key(ks[j])); assert(ks[i] != ks[j]); }
    assert forall|b: BuiltinScalarDefinition| r.contains(b) <==> !#[trigger] has_td(types, sname(b), types.len() as int) by {
        let j = match b { BuiltinScalarDefinition::Int => 0int, BuiltinScalarDefinition::Float => 1, BuiltinScalarDefinition::String => 2, BuiltinScalarDefinition::Boolean => 3, BuiltinScalarDefinition::ID => 4 };
        assert(all_scalars()[j] == b);
        if !has_td(types, sname(b), types.len() as int) {
            assert(m.contains_key(sname(b))); lem_snames(m[sname(b)], b);
            let i = choose|i: int| 0 <= i < ks.len() && ks[i] == sname(b); assert(r[i] == b);
        }
        if r.contains(b) { let i = choose|i: int| 0 <= i < r.len() && r[i] == b; assert(m.contains_key(ks[i])); }
    }
}
pub broadcast proof fn lem_missing_dirs<'a>(types: Seq<DirectiveDefinition<'a>>, m: Map<Seq<char>, BuiltinDirectiveDefinition>, r: Seq<BuiltinDirectiveDefinition>)
    requires
        #[trigger] vals_of(m, r),
        forall|k: Seq<char>| #[trigger] m.contains_key(k) <==> (exists|j: int| 0 <= j < 5 && dname(#[trigger] all_dirs()[j]) == k) && !has_dd(types, k, types.len() as int),
        forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> dname(m[k]) == k,
    ensures #[trigger] missing_dirs(types, r)
{
    let ks = choose|ks: Seq<Seq<char>>| values_of(m, ks, r);
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { assert(m.contains_key(ks[i]) && m.contains_key(ks[j])); assert(ks[i] != ks[j]); }
    assert forall|b: BuiltinDirectiveDefinition| r.contains(b) <==> !#[trigger] has_dd(types, dname(b), types.len() as int) by {
        let j = match b { BuiltinDirectiveDefinition::Deprecated => 0int, BuiltinDirectiveDefinition::Include => 1, BuiltinDirectiveDefinition::OneOf => 2, BuiltinDirectiveDefinition::Skip => 3, BuiltinDirectiveDefinition::SpecifiedBy => 4 };
        assert(all_dirs()[j] == b);
        if !has_dd(types, dname(b), types.len() as int) {
            assert(m.contains_key(dname(b))); lem_dnames(m[dname(b)], b);
            let i = choose|i: int| 0 <= i < ks.len() && ks[i] == dname(b); assert(r[i] == b);
        }
        if r.contains(b) { let i = choose|i: int| 0 <= i < r.len() && r[i] == b; assert(m.contains_key(ks[i])); }
    }
}
/// the definition the text of a built-in stands for (`parse(text).unwrap()`)
pub uninterp spec fn text_dd<'a>(s: Seq<char>) -> GDd<'a>;
pub open spec fn bdd_text(b: BuiltinDirectiveDefinition) -> Seq<char> { match b {
    BuiltinDirectiveDefinition::Skip => "directive @skip(if: Boolean!) on FIELD | FRAGMENT_SPREAD | INLINE_FRAGMENT"@,
    BuiltinDirectiveDefinition::Include => "directive @include(if: Boolean!) on FIELD | FRAGMENT_SPREAD | INLINE_FRAGMENT"@,
    BuiltinDirectiveDefinition::Deprecated => "directive @deprecated(reason: String = \"No longer supported\") on FIELD_DEFINITION | ARGUMENT_DEFINITION | INPUT_FIELD_DEFINITION | ENUM_VALUE"@,
    BuiltinDirectiveDefinition::SpecifiedBy => "directive @specifiedBy(url: String!) on SCALAR"@,
    BuiltinDirectiveDefinition::OneOf => "directive @oneOf on INPUT_OBJECT"@,
} }
impl<'a> DirectiveDefinition<'a> {
    #[verifier::external_body]
    pub fn parse_builtin(s: &'static str) -> (r: Self) ensures r.v() == text_dd::<'a>(s@) { unimplemented!() }
}
//@subst DirectiveDefinition :: parse ( value . definition ( ) ) . unwrap ( ) ==> DirectiveDefinition :: parse_builtin ( value . definition ( ) )

//@fn src=bluejay-parser/src/ast/definition/custom_scalar_type_definition.rs impl=CustomScalarTypeDefinition fn=name header="impl<'a> CustomScalarTypeDefinition<'a>" id=CustomScalarTypeDefinition::name
    ensures *r == self.name
//@end
//@fn src=bluejay-parser/src/ast/definition/object_type_definition.rs impl=ObjectTypeDefinition fn=name header="impl<'a> ObjectTypeDefinition<'a>" id=ObjectTypeDefinition::name
    ensures *r == self.name
//@end
//@fn src=bluejay-parser/src/ast/definition/interface_type_definition.rs impl=InterfaceTypeDefinition fn=name header="impl<'a> InterfaceTypeDefinition<'a>" id=InterfaceTypeDefinition::name
    ensures *r == self.name
//@end
//@fn src=bluejay-parser/src/ast/definition/enum_type_definition.rs impl=EnumTypeDefinition fn=name header="impl<'a> EnumTypeDefinition<'a>" id=EnumTypeDefinition::name
    ensures *r == self.name
//@end
//@fn src=bluejay-parser/src/ast/definition/union_type_definition.rs impl=UnionTypeDefinition fn=name header="impl<'a> UnionTypeDefinition<'a>" id=UnionTypeDefinition::name
    ensures *r == self.name
//@end
//@fn src=bluejay-parser/src/ast/definition/input_object_type_definition.rs impl=InputObjectTypeDefinition fn=name_token header="impl<'a> InputObjectTypeDefinition<'a>" id=InputObjectTypeDefinition::name_token
    ensures *r == self.name
//@end
//@fn src=bluejay-parser/src/ast/definition/type_definition.rs impl=TypeDefinition fn=name header="impl<'a> TypeDefinition<'a>" id=TypeDefinition::name
    ensures r@ == self.nm()
//@end
//@fn src=bluejay-parser/src/ast/definition/directive_definition.rs impl=DirectiveDefinition fn=name header="impl<'a> DirectiveDefinition<'a>" id=DirectiveDefinition::name
    ensures r@ == self.name.value@
//@end
//@fn src=bluejay-parser/src/ast/definition/directive_definition.rs impl=BuiltinDirectiveDefinition fn=definition header="impl BuiltinDirectiveDefinition" id=BuiltinDirectiveDefinition::definition
    ensures r@ == bdd_text(*self)
//@end
//@fn src=bluejay-parser/src/ast/definition/directive_definition.rs impl=From<BuiltinDirectiveDefinition>:DirectiveDefinition fn=from as=from_builtin header="impl<'a> DirectiveDefinition<'a>" id=DirectiveDefinition::from<BuiltinDirectiveDefinition>
    ensures r.is_builtin, r.v() == text_dd::<'a>(bdd_text($0))
//@ sig fn from_builtin($0: BuiltinDirectiveDefinition) -> (r: Self)
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=directive_definitions header="impl<'a> DefinitionDocument<'a>" id=DefinitionDocument::directive_definitions
    ensures *r == self.directive_definitions
//@ sig fn directive_definitions(&self) -> (r: &Vec<DirectiveDefinition<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=insert_builtin_scalar_definitions header="impl<'a> DefinitionDocument<'a>" id=DefinitionDocument::insert_builtin_scalar_definitions
    ensures
        final(self).v() == old(self).v(), final(self).schema_definitions == old(self).schema_definitions, final(self).directive_definitions == old(self).directive_definitions,
        with_scalars(old(self).type_definitions@, final(self).type_definitions@), parsed(*old(self)),
//@ at start
    broadcast use {sdl_group, lem_missing_scalars};
//@ loop 0
    invariant $it.v@ == all_scalars(), $it.i <= 5, *self == *old(self),
        forall|k: Seq<char>| #[trigger] $acc@.contains_key(k) <==> exists|j: int| 0 <= j < $it.i && sname(#[trigger] all_scalars()[j]) == k,
        forall|k: Seq<char>| #[trigger] $acc@.contains_key(k) ==> sname($acc@[k]) == k,
    ensures $it.i == 5,
    decreases 5 - $it.i
//@ loop 1
    invariant $it.v == &old(self).type_definitions, $it.i <= old(self).type_definitions@.len(), *self == *old(self),
        forall|k: Seq<char>| #[trigger] $let(from_iter)@.contains_key(k) <==> (exists|j: int| 0 <= j < 5 && sname(#[trigger] all_scalars()[j]) == k) && !has_td(old(self).type_definitions@, k, $it.i as int),
        forall|k: Seq<char>| #[trigger] $let(from_iter)@.contains_key(k) ==> sname($let(from_iter)@[k]) == k,
    ensures $it.i == old(self).type_definitions@.len(),
    decreases old(self).type_definitions@.len() - $it.i
//@ loop 2
    invariant $it.i <= $it.v@.len(), self.schema_definitions == old(self).schema_definitions, self.directive_definitions == old(self).directive_definitions, self.v() == old(self).v(),
        tds_tail(old(self).type_definitions@, self.type_definitions@, $it.v@, $it.i as int),
        missing_scalars(old(self).type_definitions@, $it.v@),
    ensures $it.i == $it.v@.len(), with_scalars(old(self).type_definitions@, self.type_definitions@),
    decreases $it.v@.len() - $it.i
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=insert_builtin_directive_definitions header="impl<'a> DefinitionDocument<'a>" id=DefinitionDocument::insert_builtin_directive_definitions
    ensures
        final(self).v() == old(self).v(), final(self).schema_definitions == old(self).schema_definitions, final(self).type_definitions == old(self).type_definitions,
        with_dirs(old(self).directive_definitions@, final(self).directive_definitions@),
//@ subst bdd . into ( ) ==> bdd . into_ ( )
//@ subst DirectiveDefinition :: from ==> DirectiveDefinition :: from_builtin
//@ at start
    broadcast use {sdl_group, lem_missing_dirs};
//@ loop 0
    invariant $it.v@ == all_dirs(), $it.i <= 5, *self == *old(self),
        forall|k: Seq<char>| #[trigger] $acc@.contains_key(k) <==> exists|j: int| 0 <= j < $it.i && dname(#[trigger] all_dirs()[j]) == k,
        forall|k: Seq<char>| #[trigger] $acc@.contains_key(k) ==> dname($acc@[k]) == k,
    ensures $it.i == 5,
    decreases 5 - $it.i
//@ loop 1
    invariant $it.v == &old(self).directive_definitions, $it.i <= old(self).directive_definitions@.len(), *self == *old(self),
        forall|k: Seq<char>| #[trigger] $let(from_iter)@.contains_key(k) <==> (exists|j: int| 0 <= j < 5 && dname(#[trigger] all_dirs()[j]) == k) && !has_dd(old(self).directive_definitions@, k, $it.i as int),
        forall|k: Seq<char>| #[trigger] $let(from_iter)@.contains_key(k) ==> dname($let(from_iter)@[k]) == k,
    ensures $it.i == old(self).directive_definitions@.len(),
    decreases old(self).directive_definitions@.len() - $it.i
//@ loop 2
    invariant $it.i <= $it.v@.len(), self.schema_definitions == old(self).schema_definitions, self.type_definitions == old(self).type_definitions, self.v() == old(self).v(),
        dds_tail(old(self).directive_definitions@, self.directive_definitions@, $it.v@, $it.i as int),
        missing_dirs(old(self).directive_definitions@, $it.v@),
    ensures $it.i == $it.v@.len(), with_dirs(old(self).directive_definitions@, self.directive_definitions@),
    decreases $it.v@.len() - $it.i
//@end

//@fn src=bluejay-parser/src/ast/definition/object_type_definition.rs impl=ObjectTypeDefinition fn=add_query_root_fields header="impl<'a> ObjectTypeDefinition<'a>" id=ObjectTypeDefinition::add_query_root_fields
    ensures query_object(*old(self), *final(self))
//@end
pub open spec fn query_object<'a>(a: ObjectTypeDefinition<'a>, b: ObjectTypeDefinition<'a>) -> bool {
    &&& b.description == a.description && b.name == a.name && b.interface_implementations == a.interface_implementations && b.directives == a.directives && b.is_builtin == a.is_builtin
    &&& query_fields(a.fields_definition.field_definitions@, b.fields_definition.field_definitions@)
    &&& fds_v(b.fields_definition.field_definitions@) == fds_v(a.fields_definition.field_definitions@)
}
//@fn src=bluejay-parser/src/ast/definition/explicit_schema_definition.rs impl=ExplicitSchemaDefinition fn=root_operation_type_definitions header="impl<'a> ExplicitSchemaDefinition<'a>" id=ExplicitSchemaDefinition::root_operation_type_definitions
    ensures *r == self.root_operation_type_definitions
//@ sig fn root_operation_type_definitions(&self) -> (r: &Vec<RootOperationTypeDefinition<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/explicit_schema_definition.rs impl=RootOperationTypeDefinition fn=operation_type header="impl<'a> RootOperationTypeDefinition<'a>" id=RootOperationTypeDefinition::operation_type
    ensures r == self.operation_type
//@ sig fn operation_type(&self) -> (r: CoreOperationType)
//@end
//@fn src=bluejay-parser/src/ast/definition/explicit_schema_definition.rs impl=RootOperationTypeDefinition fn=name header="impl<'a> RootOperationTypeDefinition<'a>" id=RootOperationTypeDefinition::name
    ensures r@ == self.name.value@
//@end
pub open spec fn is_q<'a>(r: RootOperationTypeDefinition<'a>, n: Seq<char>) -> bool { r.operation_type == CoreOperationType::Query && r.name.value@ == n }
pub open spec fn q_in<'a>(s: Seq<RootOperationTypeDefinition<'a>>, n: Seq<char>, k: int) -> bool { exists|i: int| 0 <= i < k && is_q(#[trigger] s[i], n) }
pub open spec fn q_roots<'a>(s: Seq<ExplicitSchemaDefinition<'a>>, n: Seq<char>, k: int) -> bool { exists|i: int| 0 <= i < k && q_in((#[trigger] s[i]).root_operation_type_definitions@, n, s[i].root_operation_type_definitions@.len() as int) }
/// the name of the query root: listed by a schema definition, or `Query` where there is none
pub open spec fn query_root<'a>(s: Seq<ExplicitSchemaDefinition<'a>>, n: Seq<char>) -> bool { (s.len() == 0 && n == "Query"@) || q_roots(s, n, s.len() as int) }
pub open spec fn queried<'a>(s: Seq<ExplicitSchemaDefinition<'a>>, a: TypeDefinition<'a>, b: TypeDefinition<'a>) -> bool {
    match a { TypeDefinition::Object(o) => if query_root(s, o.name.value@) { b is Object && query_object(o, b->Object_0) } else { a == b }, _ => a == b }
}
pub open spec fn with_queries<'a>(s: Seq<ExplicitSchemaDefinition<'a>>, a: Seq<TypeDefinition<'a>>, b: Seq<TypeDefinition<'a>>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> queried(s, a[i], #[trigger] b[i])
}
pub proof fn lem_queried_tds<'a>(s: Seq<ExplicitSchemaDefinition<'a>>, a: Seq<TypeDefinition<'a>>, b: Seq<TypeDefinition<'a>>)
    requires with_queries(s, a, b) ensures tds_v(a) == tds_v(b) decreases a.len()
{
    broadcast use sdl_group;
    if a.len() > 0 { lem_queried_tds(s, a.drop_last(), b.drop_last()); assert(queried(s, a.last(), b.last())); }
}
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=add_query_root_fields header="impl<'a> DefinitionDocument<'a>" id=DefinitionDocument::add_query_root_fields
    ensures
        final(self).v() == old(self).v(), final(self).schema_definitions == old(self).schema_definitions, final(self).directive_definitions == old(self).directive_definitions,
        with_queries(old(self).schema_definitions@, old(self).type_definitions@, final(self).type_definitions@),
//@ subst OperationType :: Query ==> CoreOperationType :: Query
//@ subst self . type_definitions . iter_mut ( ) . for_each ( | type_definition | $b ) ==> { let mut __j: usize = 0; while __j < self.type_definitions.len() { let type_definition = &mut self.type_definitions[__j]; $b; __j = __j + 1; } }
//@ loop 0
    invariant $it.v == &old(self).schema_definitions, $it.i <= old(self).schema_definitions@.len(), *self == *old(self),
        forall|n: Seq<char>| #[trigger] $acc@.contains(n) <==> q_roots(old(self).schema_definitions@, n, $it.i as int),
    ensures $it.i == old(self).schema_definitions@.len(),
    decreases old(self).schema_definitions@.len() - $it.i
//@ loop 1
    invariant $it0.v == &old(self).schema_definitions, 0 < $it0.i <= old(self).schema_definitions@.len(), *self == *old(self),
        $it.v == &old(self).schema_definitions@[$it0.i - 1].root_operation_type_definitions, $it.i <= $it.v@.len(),
        forall|n: Seq<char>| #[trigger] $acc@.contains(n) <==> q_roots(old(self).schema_definitions@, n, $it0.i - 1) || q_in($it.v@, n, $it.i as int),
    ensures $it.i == $it.v@.len(),
    decreases $it.v@.len() - $it.i
//@ loop 2
    invariant self.schema_definitions == old(self).schema_definitions, self.directive_definitions == old(self).directive_definitions, self.type_definitions@.len() == old(self).type_definitions@.len(),
        forall|n: Seq<char>| #[trigger] $let(from_iter)@.contains(n) <==> q_roots(old(self).schema_definitions@, n, old(self).schema_definitions@.len() as int),
        0 <= __j <= self.type_definitions@.len(),
        forall|i: int| 0 <= i < __j ==> queried(self.schema_definitions@, old(self).type_definitions@[i], #[trigger] self.type_definitions@[i]),
        forall|i: int| __j <= i < self.type_definitions@.len() ==> old(self).type_definitions@[i] == #[trigger] self.type_definitions@[i],
    decreases self.type_definitions@.len() - __j
//@ at tail
    proof { lem_queried_tds(self.schema_definitions@, old(self).type_definitions@, self.type_definitions@); }
//@end

impl<'a> DefinitionDocument<'a> {
}
pub open spec fn parsed<'a>(d: DefinitionDocument<'a>) -> bool { true }
/// a parsed document with what every schema has besides: the built-in scalars and directives it does not define itself, and the
/// `__schema` and `__type` fields of its query root
pub open spec fn completed<'a>(d: DefinitionDocument<'a>, r: DefinitionDocument<'a>) -> bool {
    &&& r.schema_definitions == d.schema_definitions && r.v() == d.v()
    &&& with_dirs(d.directive_definitions@, r.directive_definitions@)
    &&& exists|t: Seq<TypeDefinition<'a>>| #[trigger] with_scalars(d.type_definitions@, t) && with_queries(d.schema_definitions@, t, r.type_definitions@)
}
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=Parse:DefinitionDocument fn=parse_from_tokens header="impl<'a> DefinitionDocument<'a>" id=DefinitionDocument::parse_from_tokens
    requires $0.toks().len() <= usize::MAX
    ensures
        r is Ok <==> $0.lex_ok() && $0.toks().len() > 0 && g_sdl($0.toks(), g0::<'a>()) is Some,
        r is Ok ==> Some(r->Ok_0.v()) == g_sdl($0.toks(), g0::<'a>()),
        r is Err ==> r->Err_0@.len() > 0,
        r is Ok ==> exists|d: DefinitionDocument<'a>| #[trigger] parsed(d) && completed(d, r->Ok_0) && Some(d.v()) == g_sdl($0.toks(), g0::<'a>()),
//@ subst errors . into_iter ( ) . map ( Into :: into ) . collect ( ) ==> conv_errors ( errors )
//@ subst lex_errors . into_iter ( ) . map ( Into :: into ) . collect ( ) ==> conv_errors ( lex_errors )
//@ at start
    hide(g_scalar); hide(g_object_td); hide(g_input); hide(g_enum); hide(g_union); hide(g_interface); hide(g_schema); hide(g_dirdef); hide(tds_v); hide(dirdefs_v); hide(schemas_v); hide(with_scalars); hide(with_dirs); hide(with_queries);
    broadcast use sdl_group;
    let ghost t0 = $0.toks();
    let ghost l0 = $0.lex_ok();
//@ loop 0
    invariant
        $0.lex_ok() == l0,
        $let(Vec)@.len() == 0 ==> g_sdl(t0, g0::<'a>()) == g_sdl($0.toks(), $let(new).v()),
        $let(Vec)@.len() > 0 ==> g_sdl(t0, g0::<'a>()) is None,
        $let(false) ==> $let(Vec)@.len() > 0,
        $0.toks().len() == t0.len() ==> $0.toks() == t0,
        $0.toks().len() < t0.len() && $let(Vec)@.len() == 0 ==> n_sdl($let(new).v()) > 0,
        t0.len() >= $0.toks().len(), t0.len() <= usize::MAX,
        n_sdl($let(new).v()) + $0.toks().len() <= t0.len(),
    ensures $0.toks().len() == 0, $0.done(),
    decreases $0.toks().len()
//@end
