//@include parser_exec_spec.inc
//@fn src=bluejay-parser/src/ast/executable/variable_type.rs impl=FromTokens:VariableType fn=from_tokens
    ensures
        match g_type(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
    decreases old($0).toks().len()
//@end
impl<'a> VariableType<'a> { #[verifier::external_body] pub fn span(&self) -> (r: &Span) { unimplemented!() } }
//@fn src=bluejay-parser/src/ast/executable/variable_definition.rs impl=FromTokens:VariableDefinition fn=from_tokens
    ensures
        match g_vardef(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use values_group;
//@end
//@fn src=bluejay-parser/src/ast/executable/variable_definitions.rs impl=FromTokens:VariableDefinitions fn=from_tokens
    ensures
        match g_vardefs(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use exec_group;
//@ loop 0
    invariant_except_break $brk is None,
        g_vardefs(old($0).toks()) == g_vardefs_rest($0.toks(), vds_v($let(Vec)@)),
    invariant $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(),
    ensures $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(), $brk is Some, g_vardefs(old($0).toks()) == Some((vds_v($let(Vec)@), $0.toks())),
    decreases $0.toks().len()
//@end
//@fn src=bluejay-parser/src/ast/executable/variable_definitions.rs impl=IsMatch:VariableDefinitions fn=is_match
    ensures r == is_punct(old($0).toks(), 0, PunctuatorType::OpenRoundBracket), final($0).toks() == old($0).toks(), final($0).lex_ok() == old($0).lex_ok(),
//@end
//@fn src=bluejay-parser/src/ast/executable/type_condition.rs impl=FromTokens:TypeCondition fn=from_tokens
    ensures
        match g_tc(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.named_type == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@end
//@fn src=bluejay-parser/src/ast/executable/type_condition.rs impl=IsMatch:TypeCondition fn=is_match
    ensures r == is_kw(old($0).toks(), 0, "on"@), final($0).toks() == old($0).toks(), final($0).lex_ok() == old($0).lex_ok(),
//@end
//@fn src=bluejay-parser/src/ast/executable/fragment_spread.rs impl=FromTokens:FragmentSpread fn=from_tokens
    requires !is_kw(old($0).toks(), 1, "on"@), 
    ensures
        match g_spread(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@end
//@fn src=bluejay-parser/src/ast/executable/fragment_spread.rs impl=IsMatch:FragmentSpread fn=is_match
    ensures r == (is_punct(old($0).toks(), 0, PunctuatorType::Ellipse) && is_name(old($0).toks(), 1) && !is_kw(old($0).toks(), 1, "on"@)), final($0).toks() == old($0).toks(), final($0).lex_ok() == old($0).lex_ok(),
//@end
//@fn src=bluejay-parser/src/ast/executable/inline_fragment.rs impl=FromTokens:InlineFragment fn=from_tokens
    ensures
        match g_inline(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
    decreases old($0).toks().len(), 1int
//@end
//@fn src=bluejay-parser/src/ast/executable/inline_fragment.rs impl=IsMatch:InlineFragment fn=is_match
    ensures r == (is_punct(old($0).toks(), 0, PunctuatorType::Ellipse) && (!is_name(old($0).toks(), 1) || is_kw(old($0).toks(), 1, "on"@))), final($0).toks() == old($0).toks(), final($0).lex_ok() == old($0).lex_ok(),
//@end
//@fn src=bluejay-parser/src/ast/executable/field.rs impl=FromTokens:Field fn=from_tokens
    ensures
        match g_field(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
    decreases old($0).toks().len(), 1int
//@end
//@fn src=bluejay-parser/src/ast/executable/field.rs impl=IsMatch:Field fn=is_match
    ensures r == is_name(old($0).toks(), 0), final($0).toks() == old($0).toks(), final($0).lex_ok() == old($0).lex_ok(),
//@end
//@fn src=bluejay-parser/src/ast/executable/selection.rs impl=FromTokens:Selection fn=from_tokens
    ensures
        match g_sel(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
    decreases old($0).toks().len(), 2int
//@end
//@fn src=bluejay-parser/src/ast/executable/selection_set.rs impl=FromTokens:SelectionSet fn=from_tokens
    ensures
        match g_selset(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok || is_punct(old($0).toks(), 0, PunctuatorType::OpenBrace) ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
    decreases old($0).toks().len(), 0int
//@ at start
    broadcast use exec_group;
//@ loop 0
    invariant_except_break $brk is None,
        g_selset(old($0).toks()) == g_sels($0.toks(), sels_v($let(Vec)@)),
    invariant $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(),
    ensures $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(), $brk is Some, g_selset(old($0).toks()) == Some((sels_v($let(Vec)@), $0.toks())),
    decreases $0.toks().len()
//@end
//@fn src=bluejay-parser/src/ast/executable/selection_set.rs impl=IsMatch:SelectionSet fn=is_match
    ensures r == is_punct(old($0).toks(), 0, PunctuatorType::OpenBrace), final($0).toks() == old($0).toks(), final($0).lex_ok() == old($0).lex_ok(),
//@end
impl<'a> SelectionSet<'a> { #[verifier::external_body] pub fn span(&self) -> (r: &Span) { unimplemented!() } }
//@fn src=bluejay-parser/src/ast/operation_type.rs impl=FromTokens:OperationType fn=from_tokens
    ensures
        match t_name(old($0).toks()) { Some((n, rest)) => match core_op(n.value@) { Some(o) => r is Ok && r->Ok_0.inner == o && final($0).toks() == rest, None => r is Err }, None => r is Err },
        is_name(old($0).toks(), 0) ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@end
//@fn src=bluejay-parser/src/ast/operation_type.rs impl=IsMatch:OperationType fn=is_match
    ensures r == is_op_kw(old($0).toks()), final($0).toks() == old($0).toks(), final($0).lex_ok() == old($0).lex_ok(),
//@ loop 0
    invariant_except_break !$acc, $it.i >= 1 ==> !is_kw($0.toks(), 0, "query"@), $it.i >= 2 ==> !is_kw($0.toks(), 0, "mutation"@), $it.i >= 3 ==> !is_kw($0.toks(), 0, "subscription"@),
    invariant $it.i <= 3, $0.toks() == old($0).toks(), $0.lex_ok() == old($0).lex_ok(),
    ensures $acc == is_op_kw($0.toks()), $0.toks() == old($0).toks(), $0.lex_ok() == old($0).lex_ok(),
    decreases 3 - $it.i
//@end
impl OperationType { #[verifier::external_body] pub fn span(&self) -> (r: &Span) { unimplemented!() } }
//@fn src=bluejay-parser/src/ast/executable/operation_definition.rs impl=FromTokens:OperationDefinition fn=from_tokens
    ensures
        match g_op(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok || is_op(old($0).toks()) ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@end
//@fn src=bluejay-parser/src/ast/executable/operation_definition.rs impl=IsMatch:OperationDefinition fn=is_match
    ensures r == is_op(old($0).toks()), final($0).toks() == old($0).toks(), final($0).lex_ok() == old($0).lex_ok(),
//@end
//@fn src=bluejay-parser/src/ast/executable/fragment_definition.rs impl=FromTokens:FragmentDefinition fn=from_tokens
    ensures
        match g_frag(old($0).toks()) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok || is_kw(old($0).toks(), 0, "fragment"@) ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@end
//@fn src=bluejay-parser/src/ast/executable/fragment_definition.rs impl=IsMatch:FragmentDefinition fn=is_match
    ensures r == is_kw(old($0).toks(), 0, "fragment"@), final($0).toks() == old($0).toks(), final($0).lex_ok() == old($0).lex_ok(),
//@end
impl<'a> ExecutableDefinition<'a> {
    pub open spec fn is(self, t: Seq<Tok<'a>>, rest: Seq<Tok<'a>>) -> bool {
        match self {
            ExecutableDefinition::Operation(o) => is_op(t) && g_op(t) == Some((o.v(), rest)),
            ExecutableDefinition::Fragment(f) => !is_op(t) && is_kw(t, 0, "fragment"@) && g_frag(t) == Some((f.v(), rest)),
        }
    }
}
//@fn src=bluejay-parser/src/ast/executable/executable_definition.rs impl=FromTokens:ExecutableDefinition fn=from_tokens
    ensures
        match r { Ok(d) => d.is(old($0).toks(), final($0).toks()), Err(_) => (is_op(old($0).toks()) ==> g_op(old($0).toks()) is None) && (!is_op(old($0).toks()) && is_kw(old($0).toks(), 0, "fragment"@) ==> g_frag(old($0).toks()) is None) },
        r is Ok || is_op(old($0).toks()) || is_kw(old($0).toks(), 0, "fragment"@) ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@end
//@fn src=bluejay-parser/src/ast/executable/executable_definition.rs impl=IsMatch:ExecutableDefinition fn=is_match
    ensures r == (is_op(old($0).toks()) || is_kw(old($0).toks(), 0, "fragment"@)), final($0).toks() == old($0).toks(), final($0).lex_ok() == old($0).lex_ok(),
//@end
//@fn src=bluejay-parser/src/ast/executable/executable_document.rs impl=ExecutableDocument fn=new
    ensures r.operation_definitions == $0, r.fragment_definitions == $1
//@end
//@fn src=bluejay-parser/src/ast/executable/executable_document.rs impl=ExecutableDocument fn=is_empty
    ensures r == (self.operation_definitions@.len() == 0 && self.fragment_definitions@.len() == 0)
//@end
//@fn src=bluejay-parser/src/ast/executable/executable_document.rs impl=Parse:ExecutableDocument fn=parse_from_tokens
    ensures
        r is Ok <==> $0.lex_ok() && $0.toks().len() > 0 && g_doc($0.toks(), seq![], seq![]) is Some,
        r is Ok ==> Some(r->Ok_0.v()) == g_doc($0.toks(), seq![], seq![]),
        r is Err ==> r->Err_0@.len() > 0,
//@ subst errors . into_iter ( ) . map ( Into :: into ) . collect ( ) ==> conv_errors ( errors )
//@ subst lex_errors . into_iter ( ) . map ( Into :: into ) . collect ( ) ==> conv_errors ( lex_errors )
//@ at start
    broadcast use exec_group;
    let ghost t0 = $0.toks();
    let ghost l0 = $0.lex_ok();
//@ loop 0
    invariant
        $0.lex_ok() == l0,
        $let(new#1)@.len() == 0 ==> g_doc(t0, seq![], seq![]) == g_doc($0.toks(), ops_v($let(new).operation_definitions@), frags_v($let(new).fragment_definitions@)),
        $let(new#1)@.len() > 0 ==> g_doc(t0, seq![], seq![]) is None,
        $let(false) ==> $let(new#1)@.len() > 0,
        $0.toks().len() == t0.len() ==> $0.toks() == t0,
        $0.toks().len() < t0.len() && $let(new#1)@.len() == 0 ==> $let(new).operation_definitions@.len() + $let(new).fragment_definitions@.len() > 0,
        t0.len() >= $0.toks().len(),
        $0.toks().len() == t0.len() && $let(new#1)@.len() == 0 ==> $let(new).operation_definitions@.len() + $let(new).fragment_definitions@.len() == 0,
    ensures $0.toks().len() == 0, $0.done(),
    decreases $0.toks().len()
//@end
