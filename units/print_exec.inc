//@rtype operation_definitions=iter fragment_definitions=iter
// ---- executable documents: accessors (bluejay-parser), references (bluejay-core), printers (bluejay-printer) ----
//@item src=bluejay-core/src/executable/operation_definition.rs name=OperationDefinitionReference subst="< 'a , O : OperationDefinition > ==> < 'b , 'a >;;& 'a O :: ExplicitOperationDefinition ==> & 'b ExplicitOperationDefinition < 'a >;;& 'a O :: ImplicitOperationDefinition ==> & 'b ImplicitOperationDefinition < 'a >"
//@item src=bluejay-core/src/executable/selection.rs name=SelectionReference subst="< 'a , S : Selection > ==> < 'b , 'a >;;& 'a S :: Field ==> & 'b Field < 'a >;;& 'a S :: FragmentSpread ==> & 'b FragmentSpread < 'a >;;& 'a S :: InlineFragment ==> & 'b InlineFragment < 'a >"
//@item src=bluejay-core/src/executable/variable_type.rs name=VariableTypeReference subst="< 'a , T : VariableType > ==> < 'b , 'a >;;& 'a str ==> & 'b str;;& 'a T ==> & 'b VariableType < 'a >"
//@fn src=bluejay-parser/src/ast/executable/type_condition.rs impl=TypeCondition fn=named_type id=TypeCondition::named_type
    ensures *r == self.named_type
//@ sig fn named_type(&self) -> (r: &Name<'a>)
//@end
//@fn src=bluejay-parser/src/ast/executable/field.rs impl=Field:Field fn=alias id=Field::alias header="impl<'a> Field<'a>"
    ensures r is Some == self.alias is Some, r is Some ==> r->0@ == self.alias->0.value@
//@ sig fn alias<'b>(&'b self) -> (r: Option<&'b str>)
//@end
//@fn src=bluejay-parser/src/ast/executable/field.rs impl=Field:Field fn=name id=Field::name header="impl<'a> Field<'a>"
    ensures r@ == self.name.value@
//@ sig fn name<'b>(&'b self) -> (r: &'b str)
//@end
//@fn src=bluejay-parser/src/ast/executable/field.rs impl=Field:Field fn=arguments id=Field::arguments header="impl<'a> Field<'a>"
    ensures r is Some == self.arguments is Some, r is Some ==> *r->0 == self.arguments->0
//@ sig fn arguments<'b>(&'b self) -> (r: Option<&'b VariableArguments<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/executable/field.rs impl=Field:Field fn=directives id=Field::directives header="impl<'a> Field<'a>"
    ensures r is Some == self.directives is Some, r is Some ==> *r->0 == self.directives->0
//@ sig fn directives<'b>(&'b self) -> (r: Option<&'b VariableDirectives<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/executable/field.rs impl=Field:Field fn=selection_set id=Field::selection_set header="impl<'a> Field<'a>"
    ensures r is Some == self.selection_set is Some, r is Some ==> *r->0 == self.selection_set->0
//@ sig fn selection_set<'b>(&'b self) -> (r: Option<&'b SelectionSet<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/executable/fragment_spread.rs impl=FragmentSpread:FragmentSpread fn=name id=FragmentSpread::name header="impl<'a> FragmentSpread<'a>"
    ensures r@ == self.name.value@
//@ sig fn name<'b>(&'b self) -> (r: &'b str)
//@end
//@fn src=bluejay-parser/src/ast/executable/fragment_spread.rs impl=FragmentSpread:FragmentSpread fn=directives id=FragmentSpread::directives header="impl<'a> FragmentSpread<'a>"
    ensures r is Some == self.directives is Some, r is Some ==> *r->0 == self.directives->0
//@ sig fn directives<'b>(&'b self) -> (r: Option<&'b VariableDirectives<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/executable/inline_fragment.rs impl=InlineFragment:InlineFragment fn=type_condition id=InlineFragment::type_condition header="impl<'a> InlineFragment<'a>"
    ensures r is Some == self.type_condition is Some, r is Some ==> r->0@ == self.type_condition->0.named_type.value@
//@ sig fn type_condition<'b>(&'b self) -> (r: Option<&'b str>)
//@end
//@fn src=bluejay-parser/src/ast/executable/inline_fragment.rs impl=InlineFragment:InlineFragment fn=directives id=InlineFragment::directives header="impl<'a> InlineFragment<'a>"
    ensures r is Some == self.directives is Some, r is Some ==> *r->0 == self.directives->0
//@ sig fn directives<'b>(&'b self) -> (r: Option<&'b VariableDirectives<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/executable/inline_fragment.rs impl=InlineFragment:InlineFragment fn=selection_set id=InlineFragment::selection_set header="impl<'a> InlineFragment<'a>"
    ensures *r == self.selection_set
//@ sig fn selection_set<'b>(&'b self) -> (r: &'b SelectionSet<'a>)
//@end
//@fn src=bluejay-parser/src/ast/executable/fragment_definition.rs impl=FragmentDefinition:FragmentDefinition fn=name id=FragmentDefinition::name header="impl<'a> FragmentDefinition<'a>"
    ensures r@ == self.name.value@
//@ sig fn name<'b>(&'b self) -> (r: &'b str)
//@end
//@fn src=bluejay-parser/src/ast/executable/fragment_definition.rs impl=FragmentDefinition:FragmentDefinition fn=type_condition id=FragmentDefinition::type_condition header="impl<'a> FragmentDefinition<'a>"
    ensures r@ == self.type_condition.named_type.value@
//@ sig fn type_condition<'b>(&'b self) -> (r: &'b str)
//@end
//@fn src=bluejay-parser/src/ast/executable/fragment_definition.rs impl=FragmentDefinition:FragmentDefinition fn=directives id=FragmentDefinition::directives header="impl<'a> FragmentDefinition<'a>"
    ensures r is Some == self.directives is Some, r is Some ==> *r->0 == self.directives->0
//@ sig fn directives<'b>(&'b self) -> (r: Option<&'b VariableDirectives<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/executable/fragment_definition.rs impl=FragmentDefinition:FragmentDefinition fn=selection_set id=FragmentDefinition::selection_set header="impl<'a> FragmentDefinition<'a>"
    ensures *r == self.selection_set
//@ sig fn selection_set<'b>(&'b self) -> (r: &'b SelectionSet<'a>)
//@end
//@fn src=bluejay-parser/src/ast/executable/operation_definition.rs impl=ExplicitOperationDefinition:ExplicitOperationDefinition fn=operation_type id=ExplicitOperationDefinition::operation_type header="impl<'a> ExplicitOperationDefinition<'a>"
    ensures r == self.operation_type.inner
//@ sig fn operation_type(&self) -> (r: CoreOperationType)
//@ subst ( & self . operation_type ) . into ( ) ==> self . operation_type . inner
//@end
//@pin src=bluejay-parser/src/ast/operation_type.rs text="fn from(value: &OperationType) -> Self { value.inner }"
//@fn src=bluejay-parser/src/ast/executable/operation_definition.rs impl=ExplicitOperationDefinition:ExplicitOperationDefinition fn=name id=ExplicitOperationDefinition::name header="impl<'a> ExplicitOperationDefinition<'a>"
    ensures r is Some == self.name is Some, r is Some ==> r->0@ == self.name->0.value@
//@ sig fn name<'b>(&'b self) -> (r: Option<&'b str>)
//@end
//@fn src=bluejay-parser/src/ast/executable/operation_definition.rs impl=ExplicitOperationDefinition:ExplicitOperationDefinition fn=variable_definitions id=ExplicitOperationDefinition::variable_definitions header="impl<'a> ExplicitOperationDefinition<'a>"
    ensures r is Some == self.variable_definitions is Some, r is Some ==> *r->0 == self.variable_definitions->0
//@ sig fn variable_definitions<'b>(&'b self) -> (r: Option<&'b VariableDefinitions<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/executable/operation_definition.rs impl=ExplicitOperationDefinition:ExplicitOperationDefinition fn=directives id=ExplicitOperationDefinition::directives header="impl<'a> ExplicitOperationDefinition<'a>"
    ensures r is Some == self.directives is Some, r is Some ==> *r->0 == self.directives->0
//@ sig fn directives<'b>(&'b self) -> (r: Option<&'b VariableDirectives<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/executable/operation_definition.rs impl=ExplicitOperationDefinition:ExplicitOperationDefinition fn=selection_set id=ExplicitOperationDefinition::selection_set header="impl<'a> ExplicitOperationDefinition<'a>"
    ensures *r == self.selection_set
//@ sig fn selection_set<'b>(&'b self) -> (r: &'b SelectionSet<'a>)
//@end
//@fn src=bluejay-parser/src/ast/executable/operation_definition.rs impl=ImplicitOperationDefinition:ImplicitOperationDefinition fn=selection_set id=ImplicitOperationDefinition::selection_set header="impl<'a> ImplicitOperationDefinition<'a>"
    ensures *r == self.selection_set
//@ sig fn selection_set<'b>(&'b self) -> (r: &'b SelectionSet<'a>)
//@end
//@fn src=bluejay-parser/src/ast/executable/operation_definition.rs impl=CoreOperationDefinition:OperationDefinition fn=as_ref id=OperationDefinition::as_ref header="impl<'a> OperationDefinition<'a>"
    ensures match *self { OperationDefinition::Explicit(e) => r is Explicit && *r->Explicit_0 == e, OperationDefinition::Implicit(e) => r is Implicit && *r->Implicit_0 == e }
//@ sig fn as_ref<'b>(&'b self) -> (r: OperationDefinitionReference<'b, 'a>)
//@end
//@fn src=bluejay-parser/src/ast/executable/selection.rs impl=CoreSelection:Selection fn=as_ref id=Selection::as_ref header="impl<'a> Selection<'a>"
    ensures match *self { Selection::Field(e) => r is Field && *r->Field_0 == e, Selection::FragmentSpread(e) => r is FragmentSpread && *r->FragmentSpread_0 == e, Selection::InlineFragment(e) => r is InlineFragment && *r->InlineFragment_0 == e }
//@ sig fn as_ref<'b>(&'b self) -> (r: SelectionReference<'b, 'a>)
//@end
//@fn src=bluejay-parser/src/ast/executable/variable_definition.rs impl=VariableDefinition:VariableDefinition fn=variable id=VariableDefinition::variable header="impl<'a> VariableDefinition<'a>"
    ensures r@ == self.variable.value@
//@ sig fn variable<'b>(&'b self) -> (r: &'b str)
//@end
//@fn src=bluejay-parser/src/ast/executable/variable_definition.rs impl=VariableDefinition:VariableDefinition fn=r#type as=type_ id=VariableDefinition::r#type header="impl<'a> VariableDefinition<'a>"
    ensures *r == self.type_
//@ sig fn type_<'b>(&'b self) -> (r: &'b VariableType<'a>)
//@end
//@fn src=bluejay-parser/src/ast/executable/variable_definition.rs impl=VariableDefinition:VariableDefinition fn=directives id=VariableDefinition::directives header="impl<'a> VariableDefinition<'a>"
    ensures r is Some == self.directives is Some, r is Some ==> *r->0 == self.directives->0
//@ sig fn directives<'b>(&'b self) -> (r: Option<&'b ConstDirectives<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/executable/variable_definition.rs impl=VariableDefinition:VariableDefinition fn=default_value id=VariableDefinition::default_value header="impl<'a> VariableDefinition<'a>"
    ensures r is Some == self.default_value is Some, r is Some ==> *r->0 == self.default_value->0
//@ sig fn default_value<'b>(&'b self) -> (r: Option<&'b ConstValue<'a>>)
//@end
pub open spec fn p_tref<'b, 'a>(t: VariableTypeReference<'b, 'a>, k: Seq<KTok>) -> Seq<KTok> { match t {
    VariableTypeReference::Named(n, b) => cons(KTok::Name(n@), p_bang(b, k)),
    VariableTypeReference::List(i, b) => cons(KTok::P(PunctuatorType::OpenSquareBracket), p_type(i.v(), cons(KTok::P(PunctuatorType::CloseSquareBracket), p_bang(b, k)))) } }
pub open spec fn tref_ok<'b, 'a>(t: VariableTypeReference<'b, 'a>) -> bool { t is Named ==> nm(t->Named_0@) }
//@fn src=bluejay-parser/src/ast/executable/variable_type.rs impl=CoreVariableType:VariableType fn=as_ref id=VariableType::as_ref header="impl<'a> VariableType<'a>"
    ensures tref_ok(r), forall|k: Seq<KTok>| #[trigger] p_tref(r, k) == p_type(self.v(), k)
//@ sig fn as_ref<'b>(&'b self) -> (r: VariableTypeReference<'b, 'a>)
//@ subst inner . as_ref ( ) ==> ( & * * inner )
//@ at start
    broadcast use print_lemmas;
//@end
//@fn src=bluejay-parser/src/ast/executable/variable_definitions.rs impl=AsIter:VariableDefinitions fn=iter as=it_ id=VariableDefinitions::iter header="impl<'a> VariableDefinitions<'a>"
    ensures r.s@ == self.variable_definitions@, r.i == 0
//@ sig fn it_<'b>(&'b self) -> (r: Sl<'b, VariableDefinition<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/executable/selection_set.rs impl=AsIter:SelectionSet fn=iter as=it_ id=SelectionSet::iter header="impl<'a> SelectionSet<'a>"
    ensures r.s@ == self.selections@, r.i == 0
//@ sig fn it_<'b>(&'b self) -> (r: Sl<'b, Selection<'a>>)
//@end
//@fn src=bluejay-core/src/as_iter.rs impl=trait:AsIter fn=is_empty id=VariableDefinitions::is_empty header="impl<'a> VariableDefinitions<'a>"
    ensures r == (self.variable_definitions@.len() == 0)
//@end
//@fn src=bluejay-parser/src/ast/executable/executable_document.rs impl=ExecutableDocument:ExecutableDocument fn=operation_definitions id=ExecutableDocument::operation_definitions header="impl<'a> ExecutableDocument<'a>"
    ensures r.s@ == self.operation_definitions@, r.i == 0
//@ sig fn operation_definitions<'b>(&'b self) -> (r: Sl<'b, OperationDefinition<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/executable/executable_document.rs impl=ExecutableDocument:ExecutableDocument fn=fragment_definitions id=ExecutableDocument::fragment_definitions header="impl<'a> ExecutableDocument<'a>"
    ensures r.s@ == self.fragment_definitions@, r.i == 0
//@ sig fn fragment_definitions<'b>(&'b self) -> (r: Sl<'b, FragmentDefinition<'a>>)
//@end
pub open spec fn oref_v<'b, 'a>(r: OperationDefinitionReference<'b, 'a>) -> GOp<'a> { match r { OperationDefinitionReference::Explicit(e) => OperationDefinition::Explicit(*e).v(), OperationDefinitionReference::Implicit(e) => OperationDefinition::Implicit(*e).v() } }
//@fn src=bluejay-core/src/executable/operation_definition.rs impl=OperationDefinitionReference fn=operation_type id=OperationDefinitionReference::operation_type header="impl<'b, 'a> OperationDefinitionReference<'b, 'a>"
    ensures r == oref_v(*self).op
//@ sig fn operation_type(&self) -> (r: CoreOperationType)
//@ subst OperationType :: Query ==> CoreOperationType :: Query
//@end
//@fn src=bluejay-core/src/executable/operation_definition.rs impl=OperationDefinitionReference fn=name id=OperationDefinitionReference::name header="impl<'b, 'a> OperationDefinitionReference<'b, 'a>"
    ensures r is Some == oref_v(*self).name is Some, r is Some ==> r->0@ == oref_v(*self).name->0.value@
//@ sig fn name(&self) -> (r: Option<&'b str>)
//@ subst OperationType :: Query ==> CoreOperationType :: Query
//@end
//@fn src=bluejay-core/src/executable/operation_definition.rs impl=OperationDefinitionReference fn=variable_definitions id=OperationDefinitionReference::variable_definitions header="impl<'b, 'a> OperationDefinitionReference<'b, 'a>"
    ensures r is Some == oref_v(*self).vars is Some, r is Some ==> r->0.v() == oref_v(*self).vars->0
//@ sig fn variable_definitions(&self) -> (r: Option<&'b VariableDefinitions<'a>>)
//@ subst OperationType :: Query ==> CoreOperationType :: Query
//@end
//@fn src=bluejay-core/src/executable/operation_definition.rs impl=OperationDefinitionReference fn=selection_set id=OperationDefinitionReference::selection_set header="impl<'b, 'a> OperationDefinitionReference<'b, 'a>"
    ensures r.v() == oref_v(*self).sel
//@ sig fn selection_set(&self) -> (r: &'b SelectionSet<'a>)
//@ subst OperationType :: Query ==> CoreOperationType :: Query
//@end
//@fn src=bluejay-core/src/executable/operation_definition.rs impl=OperationDefinitionReference fn=directives id=OperationDefinitionReference::directives header="impl<'b, 'a> OperationDefinitionReference<'b, 'a>"
    ensures oref_v(*self).dirs == (match r { Some(d) => d.v(), None => seq![] })
//@ sig fn directives(&self) -> (r: Option<&'b VariableDirectives<'a>>)
//@ subst OperationType :: Query ==> CoreOperationType :: Query
//@end
//@fn src=bluejay-core/src/executable/variable_type.rs impl=VariableTypeReference fn=display_name id=VariableTypeReference::display_name header="impl<'b, 'a> VariableTypeReference<'b, 'a>"
    requires tref_ok(*self)
    ensures forall|k: Seq<KTok>| #![trigger p_tref(*self, k)] #![trigger txt(r) + k] txt(r) + k == p_tref(*self, k)
//@ sig fn display_name(&self) -> (r: String)
//@ attrs #[verifier::exec_allows_no_decreases_clause]
//@ at start
    broadcast use print_lemmas, assoc, empty_plus, push_plus;
//@end

// the tokens of each construct
pub open spec fn p_vardef<'a>(d: GVarDef<'a>, k: Seq<KTok>) -> Seq<KTok> { cons(KTok::Var(d.variable.value@), cons(KTok::P(PunctuatorType::Colon), p_type(d.ty, p_default(d.default_, p_dirs(d.dirs, k))))) }
pub open spec fn p_vds<'a>(s: Seq<GVarDef<'a>>, k: Seq<KTok>) -> Seq<KTok> decreases s.len() { if s.len() == 0 { k } else { p_vardef(s[0], p_vds(s.drop_first(), k)) } }
pub open spec fn p_vardefs<'a>(s: Seq<GVarDef<'a>>, k: Seq<KTok>) -> Seq<KTok> { if s.len() == 0 { k } else { cons(KTok::P(PunctuatorType::OpenRoundBracket), p_vds(s, cons(KTok::P(PunctuatorType::CloseRoundBracket), k))) } }
pub open spec fn p_ovars<'a>(s: Option<Seq<GVarDef<'a>>>, k: Seq<KTok>) -> Seq<KTok> { match s { None => k, Some(s) => p_vardefs(s, k) } }
pub open spec fn p_oname<'a>(n: Option<Name<'a>>, k: Seq<KTok>) -> Seq<KTok> { match n { None => k, Some(n) => p_name(n, k) } }
pub open spec fn p_alias<'a>(n: Option<Name<'a>>, k: Seq<KTok>) -> Seq<KTok> { match n { None => k, Some(n) => p_name(n, cons(KTok::P(PunctuatorType::Colon), k)) } }
pub open spec fn p_tc<'a>(n: Name<'a>, k: Seq<KTok>) -> Seq<KTok> { cons(KTok::Name("on"@), p_name(n, k)) }
pub open spec fn p_otc<'a>(n: Option<Name<'a>>, k: Seq<KTok>) -> Seq<KTok> { match n { None => k, Some(n) => p_tc(n, k) } }
pub open spec fn p_sel<'a>(x: GSel<'a>, k: Seq<KTok>) -> Seq<KTok> decreases x { match x {
    GSel::Field { alias, name, args, dirs, sel } => p_alias(alias, p_name(name, p_oargs(args, p_dirs(dirs, match sel { None => k, Some(s) => cons(KTok::P(PunctuatorType::OpenBrace), p_sels(s, cons(KTok::P(PunctuatorType::CloseBrace), k))) })))),
    GSel::Spread { name, dirs } => cons(KTok::P(PunctuatorType::Ellipse), p_name(name, p_dirs(dirs, k))),
    GSel::Inline { tc, dirs, sel } => cons(KTok::P(PunctuatorType::Ellipse), p_otc(tc, p_dirs(dirs, cons(KTok::P(PunctuatorType::OpenBrace), p_sels(sel, cons(KTok::P(PunctuatorType::CloseBrace), k)))))),
} }
pub open spec fn p_sels<'a>(s: Seq<GSel<'a>>, k: Seq<KTok>) -> Seq<KTok> decreases s { if s.len() == 0 { k } else { p_sel(s[0], p_sels(s.drop_first(), k)) } }
pub open spec fn p_selset<'a>(s: Seq<GSel<'a>>, k: Seq<KTok>) -> Seq<KTok> { cons(KTok::P(PunctuatorType::OpenBrace), p_sels(s, cons(KTok::P(PunctuatorType::CloseBrace), k))) }
pub open spec fn p_oselset<'a>(s: Option<Seq<GSel<'a>>>, k: Seq<KTok>) -> Seq<KTok> { match s { None => k, Some(s) => p_selset(s, k) } }
pub proof fn p_sel_cases<'a>(x: GSel<'a>) ensures forall|k: Seq<KTok>| #[trigger] p_sel(x, k) == (match x {
    GSel::Field { alias, name, args, dirs, sel } => p_alias(alias, p_name(name, p_oargs(args, p_dirs(dirs, p_oselset(sel, k))))),
    GSel::Spread { name, dirs } => cons(KTok::P(PunctuatorType::Ellipse), p_name(name, p_dirs(dirs, k))),
    GSel::Inline { tc, dirs, sel } => cons(KTok::P(PunctuatorType::Ellipse), p_otc(tc, p_dirs(dirs, p_selset(sel, k)))) }) { }
pub open spec fn p_op<'a>(o: GOp<'a>, k: Seq<KTok>) -> Seq<KTok> { cons(KTok::Name(opt_kw(o.op)), p_oname(o.name, p_ovars(o.vars, p_dirs(o.dirs, p_selset(o.sel, k))))) }
pub open spec fn p_frag<'a>(o: GFrag<'a>, k: Seq<KTok>) -> Seq<KTok> { cons(KTok::Name("fragment"@), p_name(o.name, p_tc(o.tc, p_dirs(o.dirs, p_selset(o.sel, k))))) }
pub open spec fn p_ops<'a>(s: Seq<GOp<'a>>, k: Seq<KTok>) -> Seq<KTok> decreases s.len() { if s.len() == 0 { k } else { p_op(s[0], p_ops(s.drop_first(), k)) } }
pub open spec fn p_frags<'a>(s: Seq<GFrag<'a>>, k: Seq<KTok>) -> Seq<KTok> decreases s.len() { if s.len() == 0 { k } else { p_frag(s[0], p_frags(s.drop_first(), k)) } }
pub open spec fn p_doc<'a>(d: GDoc<'a>, k: Seq<KTok>) -> Seq<KTok> { p_ops(d.ops, p_frags(d.frags, k)) }

pub proof fn p_vds_at<'a>(s: Seq<GVarDef<'a>>, j: int) requires 0 <= j < s.len()
    ensures forall|k: Seq<KTok>| #[trigger] p_vds(s.skip(j), k) == p_vardef(s[j], p_vds(s.skip(j + 1), k)) { assert(s.skip(j).drop_first() =~= s.skip(j + 1)); }
pub proof fn p_sels_at<'a>(s: Seq<GSel<'a>>, j: int) requires 0 <= j < s.len()
    ensures forall|k: Seq<KTok>| #[trigger] p_sels(s.skip(j), k) == p_sel(s[j], p_sels(s.skip(j + 1), k)) { assert(s.skip(j).drop_first() =~= s.skip(j + 1)); }
pub proof fn p_ops_at<'a>(s: Seq<GOp<'a>>, j: int) requires 0 <= j < s.len()
    ensures forall|k: Seq<KTok>| #[trigger] p_ops(s.skip(j), k) == p_op(s[j], p_ops(s.skip(j + 1), k)) { assert(s.skip(j).drop_first() =~= s.skip(j + 1)); }
pub proof fn p_frags_at<'a>(s: Seq<GFrag<'a>>, j: int) requires 0 <= j < s.len()
    ensures forall|k: Seq<KTok>| #[trigger] p_frags(s.skip(j), k) == p_frag(s[j], p_frags(s.skip(j + 1), k)) { assert(s.skip(j).drop_first() =~= s.skip(j + 1)); }
//@item src=bluejay-printer/src/executable/variable_definition.rs name=VariableDefinitionPrinter subst="< 'a , T : VariableDefinition > ==> < 'b , 'a >;;& 'a T ==> & 'b VariableDefinition < 'a >"
//@fn src=bluejay-printer/src/executable/variable_definition.rs impl=VariableDefinitionPrinter fn=new id=VariableDefinitionPrinter::new header="impl<'b, 'a> VariableDefinitionPrinter<'b, 'a>"
    ensures *r.variable_definition == *variable_definition
//@ sig fn new(variable_definition: &'b VariableDefinition<'a>) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/executable/variable_definition.rs impl=Display:VariableDefinitionPrinter fn=fmt id=VariableDefinitionPrinter::fmt header="impl<'b, 'a> VariableDefinitionPrinter<'b, 'a>"
    requires old(f).last() is Other
    ensures r is Ok, !(final(f).last() is Dollar), forall|k: Seq<KTok>| #![trigger p_vardef(self.variable_definition.v(), k)] old(f).out() + p_vardef(self.variable_definition.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ at start
    broadcast use print_lemmas, values_group, exec_group;
    let ghost f0 = f.out();
    broadcast use assoc, push_plus;
//@end
//@item src=bluejay-printer/src/executable/variable_definition.rs name=VariableDefinitionsPrinter subst="< 'a , T : VariableDefinitions > ==> < 'b , 'a >;;& 'a T ==> & 'b VariableDefinitions < 'a >"
//@fn src=bluejay-printer/src/executable/variable_definition.rs impl=VariableDefinitionsPrinter fn=new id=VariableDefinitionsPrinter::new header="impl<'b, 'a> VariableDefinitionsPrinter<'b, 'a>"
    ensures *r.variable_definitions == *variable_definitions
//@ sig fn new(variable_definitions: &'b VariableDefinitions<'a>) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/executable/variable_definition.rs impl=Display:VariableDefinitionsPrinter fn=fmt id=VariableDefinitionsPrinter::fmt header="impl<'b, 'a> VariableDefinitionsPrinter<'b, 'a>"
    requires !(old(f).last() is Dollar)
    ensures r is Ok, !(final(f).last() is Dollar), forall|k: Seq<KTok>| #![trigger p_vardefs(self.variable_definitions.v(), k)] old(f).out() + p_vardefs(self.variable_definitions.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ at start
    broadcast use print_lemmas, values_group, exec_group;
    let ghost f0 = f.out();
//@ loop 0
    invariant $it.i <= $it.s@.len(), $ix == $it.i, !(f.last() is Dollar), $it.i == 0 ==> f.last() is Other, self.variable_definitions.v() == vds_v($it.s@),
        forall|k: Seq<KTok>| #![trigger p_vardefs(self.variable_definitions.v(), k)] f0 + p_vardefs(self.variable_definitions.v(), k) == f.out() + p_vds(vds_v($it.s@).skip($it.i as int), cons(KTok::P(PunctuatorType::CloseRoundBracket), k))
    ensures $it.i == $it.s@.len()
    decreases $it.s@.len() - $it.i
//@ at loop 0 end
    proof { p_vds_at(vds_v($it.s@), $it.i - 1); }
//@end
//@item src=bluejay-printer/src/executable/field.rs name=FieldPrinter subst="< 'a , F : Field > ==> < 'b , 'a >;;& 'a F ==> & 'b Field < 'a >"
//@fn src=bluejay-printer/src/executable/field.rs impl=FieldPrinter fn=new id=FieldPrinter::new header="impl<'b, 'a> FieldPrinter<'b, 'a>"
    ensures *r.field == *field
//@ sig fn new(field: &'b Field<'a>, indentation: usize) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/executable/field.rs impl=Display:FieldPrinter fn=fmt id=FieldPrinter::fmt header="impl<'b, 'a> FieldPrinter<'b, 'a>"
    requires old(f).last() is Other
    ensures r is Ok, !(final(f).last() is Dollar), forall|k: Seq<KTok>| #![trigger p_sel(self.field.v(), k)] old(f).out() + p_sel(self.field.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ attrs #[verifier::exec_allows_no_decreases_clause]
//@ at start
    broadcast use print_lemmas, values_group, exec_group;
    let ghost f0 = f.out();
    proof { p_sel_cases(self.field.v()); assert(self.field.selection_set is Some ==> self.field.v()->Field_sel == Some(self.field.selection_set->0.v())); }
//@end
//@item src=bluejay-printer/src/executable/fragment_spread.rs name=FragmentSpreadPrinter subst="< 'a , T : FragmentSpread > ==> < 'b , 'a >;;& 'a T ==> & 'b FragmentSpread < 'a >"
//@fn src=bluejay-printer/src/executable/fragment_spread.rs impl=FragmentSpreadPrinter fn=new id=FragmentSpreadPrinter::new header="impl<'b, 'a> FragmentSpreadPrinter<'b, 'a>"
    ensures *r.fragment_spread == *fragment_spread
//@ sig fn new(fragment_spread: &'b FragmentSpread<'a>, indentation: usize) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/executable/fragment_spread.rs impl=Display:FragmentSpreadPrinter fn=fmt id=FragmentSpreadPrinter::fmt header="impl<'b, 'a> FragmentSpreadPrinter<'b, 'a>"
    requires old(f).last() is Other
    ensures r is Ok, !(final(f).last() is Dollar), forall|k: Seq<KTok>| #![trigger p_sel(self.fragment_spread.v(), k)] old(f).out() + p_sel(self.fragment_spread.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ at start
    broadcast use print_lemmas, values_group, exec_group;
    let ghost f0 = f.out();
    proof { p_sel_cases(self.fragment_spread.v()); }
//@end
//@item src=bluejay-printer/src/executable/inline_fragment.rs name=InlineFragmentPrinter subst="< 'a , I : InlineFragment > ==> < 'b , 'a >;;& 'a I ==> & 'b InlineFragment < 'a >"
//@fn src=bluejay-printer/src/executable/inline_fragment.rs impl=InlineFragmentPrinter fn=new id=InlineFragmentPrinter::new header="impl<'b, 'a> InlineFragmentPrinter<'b, 'a>"
    ensures *r.inline_fragment == *inline_fragment
//@ sig fn new(inline_fragment: &'b InlineFragment<'a>, indentation: usize) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/executable/inline_fragment.rs impl=Display:InlineFragmentPrinter fn=fmt id=InlineFragmentPrinter::fmt header="impl<'b, 'a> InlineFragmentPrinter<'b, 'a>"
    requires old(f).last() is Other
    ensures r is Ok, !(final(f).last() is Dollar), forall|k: Seq<KTok>| #![trigger p_sel(self.inline_fragment.v(), k)] old(f).out() + p_sel(self.inline_fragment.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ attrs #[verifier::exec_allows_no_decreases_clause]
//@ at start
    broadcast use print_lemmas, values_group, exec_group;
    let ghost f0 = f.out();
    proof { p_sel_cases(self.inline_fragment.v()); assert(self.inline_fragment.v()->Inline_sel == self.inline_fragment.selection_set.v()); }
//@end
//@item src=bluejay-printer/src/executable/selection.rs name=SelectionPrinter subst="< 'a , S : Selection > ==> < 'b , 'a >;;& 'a S ==> & 'b Selection < 'a >"
//@fn src=bluejay-printer/src/executable/selection.rs impl=SelectionPrinter fn=new id=SelectionPrinter::new header="impl<'b, 'a> SelectionPrinter<'b, 'a>"
    ensures *r.selection == *selection
//@ sig fn new(selection: &'b Selection<'a>, indentation: usize) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/executable/selection.rs impl=Display:SelectionPrinter fn=fmt id=SelectionPrinter::fmt header="impl<'b, 'a> SelectionPrinter<'b, 'a>"
    requires old(f).last() is Other
    ensures r is Ok, !(final(f).last() is Dollar), forall|k: Seq<KTok>| #![trigger p_sel(self.selection.v(), k)] old(f).out() + p_sel(self.selection.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ attrs #[verifier::exec_allows_no_decreases_clause]
//@ at start
    broadcast use print_lemmas, values_group, exec_group;
    let ghost f0 = f.out();
//@end
//@item src=bluejay-printer/src/executable/selection_set.rs name=SelectionSetPrinter subst="< 'a , S : SelectionSet > ==> < 'b , 'a >;;& 'a S ==> & 'b SelectionSet < 'a >"
//@fn src=bluejay-printer/src/executable/selection_set.rs impl=SelectionSetPrinter fn=new id=SelectionSetPrinter::new header="impl<'b, 'a> SelectionSetPrinter<'b, 'a>"
    ensures *r.selection_set == *selection_set
//@ sig fn new(selection_set: &'b SelectionSet<'a>, indentation: usize) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/executable/selection_set.rs impl=Display:SelectionSetPrinter fn=fmt id=SelectionSetPrinter::fmt header="impl<'b, 'a> SelectionSetPrinter<'b, 'a>"
    requires !(old(f).last() is Dollar)
    ensures r is Ok, final(f).last() is Other, forall|k: Seq<KTok>| #![trigger p_selset(self.selection_set.v(), k)] old(f).out() + p_selset(self.selection_set.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ attrs #[verifier::exec_allows_no_decreases_clause]
//@ at start
    broadcast use print_lemmas, values_group, exec_group;
    let ghost f0 = f.out();
//@ loop 0
    invariant $it.i <= $it.s@.len(), f.last() is Other, self.selection_set.v() == sels_v($it.s@),
        forall|k: Seq<KTok>| #![trigger p_selset(self.selection_set.v(), k)] f0 + p_selset(self.selection_set.v(), k) == f.out() + p_sels(sels_v($it.s@).skip($it.i as int), cons(KTok::P(PunctuatorType::CloseBrace), k))
    ensures $it.i == $it.s@.len()
    decreases $it.s@.len() - $it.i
//@ at loop 0 end
    proof { p_sels_at(sels_v($it.s@), $it.i - 1); }
//@end
//@item src=bluejay-printer/src/executable/operation_definition.rs name=OperationDefinitionPrinter subst="< 'a , O : OperationDefinition > ==> < 'b , 'a >;;& 'a O ==> & 'b OperationDefinition < 'a >"
//@fn src=bluejay-printer/src/executable/operation_definition.rs impl=OperationDefinitionPrinter fn=new id=OperationDefinitionPrinter::new header="impl<'b, 'a> OperationDefinitionPrinter<'b, 'a>"
    ensures *r.operation_definition == *operation_definition
//@ sig fn new(operation_definition: &'b OperationDefinition<'a>) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/executable/operation_definition.rs impl=Display:OperationDefinitionPrinter fn=fmt id=OperationDefinitionPrinter::fmt header="impl<'b, 'a> OperationDefinitionPrinter<'b, 'a>"
    requires old(f).last() is Other
    ensures r is Ok, !(final(f).last() is Dollar), forall|k: Seq<KTok>| #![trigger p_op(self.operation_definition.v(), k)] old(f).out() + p_op(self.operation_definition.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ at start
    broadcast use print_lemmas, values_group, exec_group;
    let ghost f0 = f.out();
//@end
//@item src=bluejay-printer/src/executable/fragment_definition.rs name=FragmentDefinitionPrinter subst="< 'a , T : FragmentDefinition > ==> < 'b , 'a >;;& 'a T ==> & 'b FragmentDefinition < 'a >"
//@fn src=bluejay-printer/src/executable/fragment_definition.rs impl=FragmentDefinitionPrinter fn=new id=FragmentDefinitionPrinter::new header="impl<'b, 'a> FragmentDefinitionPrinter<'b, 'a>"
    ensures *r.fragment_definition == *fragment_definition
//@ sig fn new(fragment_definition: &'b FragmentDefinition<'a>) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/executable/fragment_definition.rs impl=Display:FragmentDefinitionPrinter fn=fmt id=FragmentDefinitionPrinter::fmt header="impl<'b, 'a> FragmentDefinitionPrinter<'b, 'a>"
    requires old(f).last() is Other
    ensures r is Ok, !(final(f).last() is Dollar), forall|k: Seq<KTok>| #![trigger p_frag(self.fragment_definition.v(), k)] old(f).out() + p_frag(self.fragment_definition.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ at start
    broadcast use print_lemmas, values_group, exec_group;
    let ghost f0 = f.out();
//@end
//@item src=bluejay-printer/src/executable/executable_document.rs name=ExecutableDocumentPrinter subst="< 'a , T : ExecutableDocument > ==> < 'b , 'a >;;& 'a T ==> & 'b ExecutableDocument < 'a >"
//@fn src=bluejay-printer/src/executable/executable_document.rs impl=ExecutableDocumentPrinter fn=new id=ExecutableDocumentPrinter::new header="impl<'b, 'a> ExecutableDocumentPrinter<'b, 'a>"
    ensures *r.executable_document == *executable_document
//@ sig fn new(executable_document: &'b ExecutableDocument<'a>) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/executable/executable_document.rs impl=Display:ExecutableDocumentPrinter fn=fmt id=ExecutableDocumentPrinter::fmt header="impl<'b, 'a> ExecutableDocumentPrinter<'b, 'a>"
    requires old(f).last() is Other
    ensures r is Ok, !(final(f).last() is Dollar), forall|k: Seq<KTok>| #![trigger p_doc(self.executable_document.v(), k)] old(f).out() + p_doc(self.executable_document.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ at start
    broadcast use print_lemmas, values_group, exec_group;
    let ghost f0 = f.out();
//@ loop 0
    invariant $it.i <= $it.s@.len(), $ix == $it.i, f.last() is Other, self.executable_document.v().ops == ops_v($it.s@),
        forall|k: Seq<KTok>| #![trigger p_doc(self.executable_document.v(), k)] f0 + p_doc(self.executable_document.v(), k) == f.out() + p_ops(ops_v($it.s@).skip($it.i as int), p_frags(self.executable_document.v().frags, k))
    ensures $it.i == $it.s@.len()
    decreases $it.s@.len() - $it.i
//@ at loop 0 end
    proof { p_ops_at(ops_v($it.s@), $it.i - 1); }
//@ loop 1
    invariant $it.i <= $it.s@.len(), f.last() is Other, self.executable_document.v().frags == frags_v($it.s@),
        forall|k: Seq<KTok>| #![trigger p_doc(self.executable_document.v(), k)] f0 + p_doc(self.executable_document.v(), k) == f.out() + p_frags(frags_v($it.s@).skip($it.i as int), k)
    ensures $it.i == $it.s@.len()
    decreases $it.s@.len() - $it.i
//@ at loop 1 end
    proof { p_frags_at(frags_v($it.s@), $it.i - 1); }
//@end
