// ---- executable documents ---------------------------------------------------------------------------
//@item src=bluejay-parser/src/ast/executable/variable_type.rs name=VariableType
//@item src=bluejay-parser/src/ast/executable/variable_definition.rs name=VariableDefinition
//@item src=bluejay-parser/src/ast/executable/variable_definitions.rs name=VariableDefinitions
//@item src=bluejay-parser/src/ast/executable/type_condition.rs name=TypeCondition
//@item src=bluejay-parser/src/ast/executable/fragment_spread.rs name=FragmentSpread
//@item src=bluejay-parser/src/ast/executable/inline_fragment.rs name=InlineFragment
//@item src=bluejay-parser/src/ast/executable/field.rs name=Field
//@item src=bluejay-parser/src/ast/executable/selection_set.rs name=SelectionSet
//@item src=bluejay-parser/src/ast/executable/selection.rs name=Selection
//@item src=bluejay-parser/src/ast/operation_type.rs name=OperationType
//@item src=bluejay-parser/src/ast/executable/operation_definition.rs name=OperationDefinition
//@item src=bluejay-parser/src/ast/executable/operation_definition.rs name=ExplicitOperationDefinition
//@item src=bluejay-parser/src/ast/executable/operation_definition.rs name=ImplicitOperationDefinition
//@item src=bluejay-parser/src/ast/executable/fragment_definition.rs name=FragmentDefinition
//@item src=bluejay-parser/src/ast/executable/executable_definition.rs name=ExecutableDefinition
//@item src=bluejay-parser/src/ast/executable/executable_document.rs name=ExecutableDocument
//@subst TypeCondition :: ON ==> "on"
//@subst Self :: ON ==> "on"
//@pin src=bluejay-parser/src/ast/executable/type_condition.rs text="pub(crate) const ON: &'static str = `on`;"
//@known new is_empty

pub struct GVarDef<'a> { pub variable: Variable<'a>, pub ty: GType<'a>, pub default_: Option<GValue<'a>>, pub dirs: Seq<GDir<'a>> }
#[allow(inconsistent_fields)]
pub enum GSel<'a> {
    Field { alias: Option<Name<'a>>, name: Name<'a>, args: Option<Seq<GArg<'a>>>, dirs: Seq<GDir<'a>>, sel: Option<Seq<GSel<'a>>> },
    Spread { name: Name<'a>, dirs: Seq<GDir<'a>> },
    Inline { tc: Option<Name<'a>>, dirs: Seq<GDir<'a>>, sel: Seq<GSel<'a>> },
}
pub struct GOp<'a> { pub explicit: bool, pub op: CoreOperationType, pub name: Option<Name<'a>>, pub vars: Option<Seq<GVarDef<'a>>>, pub dirs: Seq<GDir<'a>>, pub sel: Seq<GSel<'a>> }
pub struct GFrag<'a> { pub name: Name<'a>, pub tc: Name<'a>, pub dirs: Seq<GDir<'a>>, pub sel: Seq<GSel<'a>> }
pub struct GDoc<'a> { pub ops: Seq<GOp<'a>>, pub frags: Seq<GFrag<'a>> }

impl<'a> VariableType<'a> {
    pub open spec fn v(self) -> GType<'a> decreases self {
        match self { VariableType::Named { name, is_required, .. } => GType::Named(name, is_required), VariableType::List { inner, is_required, .. } => GType::List(Box::new(inner.v()), is_required) }
    }
}
impl<'a> VariableDefinition<'a> { pub open spec fn v(self) -> GVarDef<'a> { GVarDef { variable: self.variable, ty: self.type_.v(), default_: match self.default_value { Some(d) => Some(d.v()), None => None }, dirs: odirs_v(self.directives) } } }
pub open spec fn vds_v<'a>(s: Seq<VariableDefinition<'a>>) -> Seq<GVarDef<'a>> { s.map_values(|x: VariableDefinition<'a>| x.v()) }
impl<'a> VariableDefinitions<'a> { pub open spec fn v(self) -> Seq<GVarDef<'a>> { vds_v(self.variable_definitions@) } }
impl<'a> FragmentSpread<'a> { pub open spec fn v(self) -> GSel<'a> { GSel::Spread { name: self.name, dirs: odirs_v(self.directives) } } }
pub open spec fn oargs_v<'a, const C: bool>(o: Option<Arguments<'a, C>>) -> Option<Seq<GArg<'a>>> { match o { Some(d) => Some(d.v()), None => None } }
impl<'a> Field<'a> {
    pub open spec fn v(self) -> GSel<'a> decreases self {
        GSel::Field { alias: self.alias, name: self.name, args: oargs_v(self.arguments), dirs: odirs_v(self.directives), sel: match self.selection_set { Some(s) => Some(s.v()), None => None } }
    }
}
impl<'a> InlineFragment<'a> {
    pub open spec fn v(self) -> GSel<'a> decreases self {
        GSel::Inline { tc: match self.type_condition { Some(t) => Some(t.named_type), None => None }, dirs: odirs_v(self.directives), sel: self.selection_set.v() }
    }
}
impl<'a> Selection<'a> {
    pub open spec fn v(self) -> GSel<'a> decreases self {
        match self { Selection::Field(f) => f.v(), Selection::FragmentSpread(f) => f.v(), Selection::InlineFragment(f) => f.v() }
    }
}
impl<'a> SelectionSet<'a> {
    pub open spec fn v(self) -> Seq<GSel<'a>> decreases self {
        Seq::new(self.selections@.len(), |i: int| if 0 <= i < self.selections@.len() { self.selections@[i].v() } else { arbitrary() })
    }
}
pub open spec fn sels_v<'a>(s: Seq<Selection<'a>>) -> Seq<GSel<'a>> { s.map_values(|x: Selection<'a>| x.v()) }
impl<'a> OperationDefinition<'a> {
    pub open spec fn v(self) -> GOp<'a> {
        match self {
            OperationDefinition::Explicit(e) => GOp { explicit: true, op: e.operation_type.inner, name: e.name, vars: match e.variable_definitions { Some(v) => Some(v.v()), None => None }, dirs: odirs_v(e.directives), sel: e.selection_set.v() },
            OperationDefinition::Implicit(e) => GOp { explicit: false, op: CoreOperationType::Query, name: None, vars: None, dirs: seq![], sel: e.selection_set.v() },
        }
    }
}
impl<'a> FragmentDefinition<'a> { pub open spec fn v(self) -> GFrag<'a> { GFrag { name: self.name, tc: self.type_condition.named_type, dirs: odirs_v(self.directives), sel: self.selection_set.v() } } }
pub open spec fn ops_v<'a>(s: Seq<OperationDefinition<'a>>) -> Seq<GOp<'a>> { s.map_values(|x: OperationDefinition<'a>| x.v()) }
pub open spec fn frags_v<'a>(s: Seq<FragmentDefinition<'a>>) -> Seq<GFrag<'a>> { s.map_values(|x: FragmentDefinition<'a>| x.v()) }
impl<'a> ExecutableDocument<'a> { pub open spec fn v(self) -> GDoc<'a> { GDoc { ops: ops_v(self.operation_definitions@), frags: frags_v(self.fragment_definitions@) } } }

pub broadcast proof fn lem_vds_push<'a>(s: Seq<VariableDefinition<'a>>, x: VariableDefinition<'a>) ensures #[trigger] vds_v(s.push(x)) == vds_v(s).push(x.v()) { assert(vds_v(s.push(x)) =~= vds_v(s).push(x.v())); }
pub broadcast proof fn lem_vds_empty<'a>(s: Seq<VariableDefinition<'a>>) requires s.len() == 0 ensures #[trigger] vds_v(s) == Seq::<GVarDef<'a>>::empty() { assert(vds_v(s) =~= Seq::<GVarDef<'a>>::empty()); }
pub broadcast proof fn lem_sels_push<'a>(s: Seq<Selection<'a>>, x: Selection<'a>) ensures #[trigger] sels_v(s.push(x)) == sels_v(s).push(x.v()) { assert(sels_v(s.push(x)) =~= sels_v(s).push(x.v())); }
pub broadcast proof fn lem_sels_empty<'a>(s: Seq<Selection<'a>>) requires s.len() == 0 ensures #[trigger] sels_v(s) == Seq::<GSel<'a>>::empty() { assert(sels_v(s) =~= Seq::<GSel<'a>>::empty()); }
pub broadcast proof fn lem_sel_view<'a>(l: SelectionSet<'a>) ensures #[trigger] l.v() == sels_v(l.selections@) { assert(l.v() =~= sels_v(l.selections@)); }
pub broadcast proof fn lem_ops_push<'a>(s: Seq<OperationDefinition<'a>>, x: OperationDefinition<'a>) ensures #[trigger] ops_v(s.push(x)) == ops_v(s).push(x.v()) { assert(ops_v(s.push(x)) =~= ops_v(s).push(x.v())); }
pub broadcast proof fn lem_ops_empty<'a>(s: Seq<OperationDefinition<'a>>) requires s.len() == 0 ensures #[trigger] ops_v(s) == Seq::<GOp<'a>>::empty() { assert(ops_v(s) =~= Seq::<GOp<'a>>::empty()); }
pub broadcast proof fn lem_frags_push<'a>(s: Seq<FragmentDefinition<'a>>, x: FragmentDefinition<'a>) ensures #[trigger] frags_v(s.push(x)) == frags_v(s).push(x.v()) { assert(frags_v(s.push(x)) =~= frags_v(s).push(x.v())); }
pub broadcast proof fn lem_frags_empty<'a>(s: Seq<FragmentDefinition<'a>>) requires s.len() == 0 ensures #[trigger] frags_v(s) == Seq::<GFrag<'a>>::empty() { assert(frags_v(s) =~= Seq::<GFrag<'a>>::empty()); }
broadcast group exec_group { lem_vds_push, lem_vds_empty, lem_sels_push, lem_sels_empty, lem_sel_view, lem_ops_push, lem_ops_empty, lem_frags_push, lem_frags_empty }

// Grammar (October 2021): Type (2.11), VariableDefinitions (2.10), SelectionSet (2.4), Field (2.5), fragments (2.8),
// OperationDefinition (2.3), ExecutableDocument (2.2)
pub open spec fn g_vardef<'a>(t: Seq<Tok<'a>>) -> R<'a, GVarDef<'a>> {
    match t_var(t) { None => None, Some((variable, t1)) => match t_punct(t1, PunctuatorType::Colon) { None => None, Some((_, t2)) => match g_type(t2) { None => None, Some((ty, t3)) =>
        match g_default(t3) { None => None, Some((default_, t4)) => match g_dirs(t4, true, seq![]) { None => None, Some((dirs, t5)) => Some((GVarDef { variable, ty, default_, dirs }, t5)) } } } } }
}
pub open spec fn g_vardefs<'a>(t: Seq<Tok<'a>>) -> R<'a, Seq<GVarDef<'a>>> {
    match t_punct(t, PunctuatorType::OpenRoundBracket) { None => None, Some((_, t1)) => g_vardefs_rest(t1, seq![]) }
}
pub open spec fn g_vardefs_rest<'a>(t: Seq<Tok<'a>>, acc: Seq<GVarDef<'a>>) -> R<'a, Seq<GVarDef<'a>>> decreases t.len() {
    match g_vardef(t) { None => None, Some((a, t1)) => match t_punct(t1, PunctuatorType::CloseRoundBracket) {
        Some((_, t2)) => Some((acc.push(a), t2)),
        None => if t1.len() < t.len() { g_vardefs_rest(t1, acc.push(a)) } else { None } } }
}
pub open spec fn g_oargs<'a>(t: Seq<Tok<'a>>) -> R<'a, Option<Seq<GArg<'a>>>> {
    if is_punct(t, 0, PunctuatorType::OpenRoundBracket) { match g_args(t, false) { None => None, Some((a, t1)) => Some((Some(a), t1)) } } else { Some((None, t)) }
}
pub open spec fn g_fieldname<'a>(t: Seq<Tok<'a>>) -> R<'a, (Option<Name<'a>>, Name<'a>)> {
    match t_name(t) { None => None, Some((n, t1)) => match t_punct(t1, PunctuatorType::Colon) {
        None => Some(((None, n), t1)),
        Some((_, t2)) => match t_name(t2) { None => None, Some((m, t3)) => Some(((Some(n), m), t3)) } } }
}
pub open spec fn g_field<'a>(t: Seq<Tok<'a>>) -> R<'a, GSel<'a>> decreases t.len(), 1int {
    match g_fieldname(t) { None => None, Some(((alias, name), t1)) => match g_oargs(t1) { None => None, Some((args, t2)) => match g_dirs(t2, false, seq![]) { None => None, Some((dirs, t3)) =>
        if is_punct(t3, 0, PunctuatorType::OpenBrace) {
            if t3.len() < t.len() { match g_selset(t3) { None => None, Some((s, t4)) => Some((GSel::Field { alias, name, args, dirs, sel: Some(s) }, t4)) } } else { None }
        } else { Some((GSel::Field { alias, name, args, dirs, sel: None }, t3)) } } } }
}
pub open spec fn g_spread<'a>(t: Seq<Tok<'a>>) -> R<'a, GSel<'a>> {
    match t_punct(t, PunctuatorType::Ellipse) { None => None, Some((_, t1)) => match t_name(t1) { None => None, Some((name, t2)) =>
        match g_dirs(t2, false, seq![]) { None => None, Some((dirs, t3)) => Some((GSel::Spread { name, dirs }, t3)) } } }
}
pub open spec fn g_tc<'a>(t: Seq<Tok<'a>>) -> R<'a, Name<'a>> { match t_kw(t, "on"@) { None => None, Some((_, t1)) => t_name(t1) } }
pub open spec fn g_otc<'a>(t: Seq<Tok<'a>>) -> R<'a, Option<Name<'a>>> {
    if is_kw(t, 0, "on"@) { match g_tc(t) { None => None, Some((n, t1)) => Some((Some(n), t1)) } } else { Some((None, t)) }
}
pub open spec fn g_inline<'a>(t: Seq<Tok<'a>>) -> R<'a, GSel<'a>> decreases t.len(), 1int {
    match t_punct(t, PunctuatorType::Ellipse) { None => None, Some((_, t1)) => match g_otc(t1) { None => None, Some((tc, t2)) => match g_dirs(t2, false, seq![]) { None => None, Some((dirs, t3)) =>
        if t3.len() < t.len() { match g_selset(t3) { None => None, Some((sel, t4)) => Some((GSel::Inline { tc, dirs, sel }, t4)) } } else { None } } } }
}
pub open spec fn g_sel<'a>(t: Seq<Tok<'a>>) -> R<'a, GSel<'a>> decreases t.len(), 2int {
    if is_name(t, 0) { g_field(t) }
    else if is_punct(t, 0, PunctuatorType::Ellipse) { if is_name(t, 1) && !is_kw(t, 1, "on"@) { g_spread(t) } else { g_inline(t) } }
    else { None }
}
pub open spec fn g_selset<'a>(t: Seq<Tok<'a>>) -> R<'a, Seq<GSel<'a>>> decreases t.len(), 0int {
    match t_punct(t, PunctuatorType::OpenBrace) { None => None, Some((_, t1)) => if t1.len() < t.len() { g_sels(t1, seq![]) } else { None } }
}
pub open spec fn g_sels<'a>(t: Seq<Tok<'a>>, acc: Seq<GSel<'a>>) -> R<'a, Seq<GSel<'a>>> decreases t.len(), 3int {
    match g_sel(t) { None => None, Some((a, t1)) => match t_punct(t1, PunctuatorType::CloseBrace) {
        Some((_, t2)) => Some((acc.push(a), t2)),
        None => if t1.len() < t.len() { g_sels(t1, acc.push(a)) } else { None } } }
}
pub open spec fn is_op_kw<'a>(t: Seq<Tok<'a>>) -> bool { is_kw(t, 0, "query"@) || is_kw(t, 0, "mutation"@) || is_kw(t, 0, "subscription"@) }
pub open spec fn g_oname<'a>(t: Seq<Tok<'a>>) -> (Option<Name<'a>>, Seq<Tok<'a>>) { match t_name(t) { Some((n, t1)) => (Some(n), t1), None => (None, t) } }
pub open spec fn g_ovars<'a>(t: Seq<Tok<'a>>) -> R<'a, Option<Seq<GVarDef<'a>>>> {
    if is_punct(t, 0, PunctuatorType::OpenRoundBracket) { match g_vardefs(t) { None => None, Some((a, t1)) => Some((Some(a), t1)) } } else { Some((None, t)) }
}
pub open spec fn g_op<'a>(t: Seq<Tok<'a>>) -> R<'a, GOp<'a>> {
    if is_op_kw(t) {
        let op = core_op(t[0]->Name_0.value@)->0;
        let (name, t2) = g_oname(t.skip(1));
        match g_ovars(t2) { None => None, Some((vars, t3)) => match g_dirs(t3, false, seq![]) { None => None, Some((dirs, t4)) => match g_selset(t4) { None => None, Some((sel, t5)) =>
            Some((GOp { explicit: true, op, name, vars, dirs, sel }, t5)) } } }
    } else { match g_selset(t) { None => None, Some((sel, t1)) => Some((GOp { explicit: false, op: CoreOperationType::Query, name: None, vars: None, dirs: seq![], sel }, t1)) } }
}
pub open spec fn g_frag<'a>(t: Seq<Tok<'a>>) -> R<'a, GFrag<'a>> {
    match t_kw(t, "fragment"@) { None => None, Some((_, t1)) => match t_name(t1) { None => None, Some((name, t2)) => if name.value@ == "on"@ { None } else { match g_tc(t2) { None => None, Some((tc, t3)) =>
        match g_dirs(t3, false, seq![]) { None => None, Some((dirs, t4)) => match g_selset(t4) { None => None, Some((sel, t5)) => Some((GFrag { name, tc, dirs, sel }, t5)) } } } } } }
}
pub open spec fn is_op<'a>(t: Seq<Tok<'a>>) -> bool { is_op_kw(t) || is_punct(t, 0, PunctuatorType::OpenBrace) }
/// Document: one or more definitions up to the end of the input
pub open spec fn g_doc<'a>(t: Seq<Tok<'a>>, ops: Seq<GOp<'a>>, frags: Seq<GFrag<'a>>) -> Option<GDoc<'a>> decreases t.len() {
    if t.len() == 0 { Some(GDoc { ops, frags }) }
    else if is_op(t) { match g_op(t) { None => None, Some((o, t1)) => if t1.len() < t.len() { g_doc(t1, ops.push(o), frags) } else { None } } }
    else if is_kw(t, 0, "fragment"@) { match g_frag(t) { None => None, Some((o, t1)) => if t1.len() < t.len() { g_doc(t1, ops, frags.push(o)) } else { None } } }
    else { None }
}

