//@include parser_values_spec.inc
//@fn src=bluejay-parser/src/ast/value.rs impl=FromTokens:Value fn=from_tokens
    ensures
        match g_value(old($0).toks(), CONST) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        final($0).toks().len() < old($0).toks().len() || (final($0).toks().len() == 0 && r is Err), final($0).lex_ok() == old($0).lex_ok(),
    decreases old($0).toks().len()
//@ at start
    broadcast use values_group;
//@ loop 0
    invariant_except_break $brk is None,
        g_list(old($0).toks().skip(1), CONST, seq![]) == g_list($0.toks(), CONST, vals_v($let(Vec)@)),
    invariant $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(),
    ensures $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(), $brk is Some, g_list(old($0).toks().skip(1), CONST, seq![]) == Some((vals_v($let(Vec)@), $0.toks())),
    decreases $0.toks().len()
//@ loop 1
    invariant_except_break $brk is None,
        g_object(old($0).toks().skip(1), CONST, seq![]) == g_object($0.toks(), CONST, obj_v($let(Vec#1)@)),
    invariant $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(),
    ensures $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(), $brk is Some, g_object(old($0).toks().skip(1), CONST, seq![]) == Some((obj_v($let(Vec#1)@), $0.toks())),
    decreases $0.toks().len()
//@end
impl<'a, const CONST: bool> Value<'a, CONST> { #[verifier::external_body] pub fn span(&self) -> (r: &Span) { unimplemented!() } }
impl<'a, const CONST: bool> Arguments<'a, CONST> { #[verifier::external_body] pub fn span(&self) -> (r: &Span) { unimplemented!() } }
impl<'a, const CONST: bool> Directive<'a, CONST> { #[verifier::external_body] pub fn span(&self) -> (r: &Span) { unimplemented!() } }

//@fn src=bluejay-parser/src/ast/argument.rs impl=FromTokens:Argument fn=from_tokens
    ensures
        match g_arg(old($0).toks(), CONST) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@end
//@fn src=bluejay-parser/src/ast/arguments.rs impl=FromTokens:Arguments fn=from_tokens
    ensures
        match g_args(old($0).toks(), CONST) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use values_group;
//@ loop 0
    invariant_except_break $brk is None,
        g_args(old($0).toks(), CONST) == g_args_rest($0.toks(), CONST, args_v($let(Vec)@)),
    invariant $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(),
    ensures $0.toks().len() < old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(), $brk is Some, g_args(old($0).toks(), CONST) == Some((args_v($let(Vec)@), $0.toks())),
    decreases $0.toks().len()
//@end
//@fn src=bluejay-parser/src/ast/arguments.rs impl=IsMatch:Arguments fn=is_match
    ensures r == is_punct(old($0).toks(), 0, PunctuatorType::OpenRoundBracket), final($0).toks() == old($0).toks(), final($0).lex_ok() == old($0).lex_ok(),
//@end
//@fn src=bluejay-parser/src/ast/directive.rs impl=FromTokens:Directive fn=from_tokens
    ensures
        match g_dir(old($0).toks(), CONST) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@end
//@fn src=bluejay-parser/src/ast/directive.rs impl=IsMatch:Directive fn=is_match
    ensures r == is_punct(old($0).toks(), 0, PunctuatorType::At), final($0).toks() == old($0).toks(), final($0).lex_ok() == old($0).lex_ok(),
//@end
//@fn src=bluejay-parser/src/ast/directives.rs impl=FromTokens:Directives fn=from_tokens
    ensures
        match g_dirs(old($0).toks(), CONST, seq![]) { Some((v, rest)) => r is Ok && r->Ok_0.v() == v && final($0).toks() == rest, None => r is Err },
        r is Ok && is_punct(old($0).toks(), 0, PunctuatorType::At) ==> final($0).toks().len() < old($0).toks().len(), final($0).toks().len() <= old($0).toks().len(), final($0).lex_ok() == old($0).lex_ok(),
//@ at start
    broadcast use values_group;
//@ loop 0
    invariant g_dirs(old($0).toks(), CONST, seq![]) == g_dirs($0.toks(), CONST, dirs_v($let(Vec)@)),
        $0.toks().len() <= old($0).toks().len(), $0.lex_ok() == old($0).lex_ok(),
        $0.toks().len() == old($0).toks().len() ==> $0.toks() == old($0).toks(),
    ensures !is_punct($0.toks(), 0, PunctuatorType::At),
    decreases $0.toks().len()
//@end
//@fn src=bluejay-parser/src/ast/directives.rs impl=IsMatch:Directives fn=is_match
    ensures r == is_punct(old($0).toks(), 0, PunctuatorType::At), final($0).toks() == old($0).toks(), final($0).lex_ok() == old($0).lex_ok(),
//@end
impl<'a, const CONST: bool> Directives<'a, CONST> { #[verifier::external_body] pub fn span(&self) -> (r: Option<&Span>) { unimplemented!() } }
