// The LexerTokens implementation of the Tokens interface meets the contracts the parsers rely on.
#![feature(allocator_api)]
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
use std::collections::VecDeque;
verus! {
//@include parser_prelude.inc
//@rtype next=opt compute_up_to=unit get=opt into_name=res into_string_value=res
//@subst String :: from ( "$" ) ==> __opaque_string ( )
//@method to_string ==> __opaque_string()
//@known next peek compute_up_to peek_next expect_name expect_variable expect_name_value expect_punctuator unexpected_eof unexpected_token

pub assume_specification<T, A: std::alloc::Allocator>[ VecDeque::<T, A>::get ](v: &VecDeque<T, A>, i: usize) -> (r: Option<&T>)
    ensures r is Some <==> i < v@.len(), r is Some ==> *r->0 == v@[i as int];

pub type LexItem<'a> = Result<LexicalToken<'a>, (LexError, Span)>;
// a lexer: a finite sequence of results still to come (finite and fused: assumed of logos)
pub trait Lexer<'a>: Sized {
    spec fn rest(&self) -> Seq<LexItem<'a>>;
    fn next(&mut self) -> (r: Option<LexItem<'a>>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1);
    fn empty_span(&self) -> Span;
}
pub open spec fn oks<'a>(s: Seq<LexItem<'a>>) -> Seq<Tok<'a>> decreases s.len() {
    if s.len() == 0 { seq![] } else { match s[0] { Ok(t) => seq![t] + oks(s.skip(1)), Err(_) => oks(s.skip(1)) } }
}
pub open spec fn errs<'a>(s: Seq<LexItem<'a>>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { (match s[0] { Ok(t) => 0nat, Err(_) => 1nat }) + errs(s.skip(1)) }
}
//@item src=bluejay-parser/src/ast/tokens.rs name=LexerTokens
impl<'a, T: Lexer<'a>> LexerTokens<'a, T> {
    pub open spec fn toks_(&self) -> Seq<Tok<'a>> { self.buffer@ + oks(self.lexer.rest()) }
    pub open spec fn lex_ok_(&self) -> bool { self.errors@.len() == 0 && errs(self.lexer.rest()) == 0 }
    pub open spec fn done_(&self) -> bool { self.buffer@.len() == 0 && self.lexer.rest().len() == 0 }
}
//@fn src=bluejay-parser/src/ast/tokens.rs impl=LexerTokens fn=new
    ensures r.toks_() == oks($0.rest()), r.lex_ok_() == (errs($0.rest()) == 0)
//@ at tail
    assert(__tail.toks_() =~= oks($0.rest()));
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=LexerTokens fn=compute_up_to
    ensures final(self).toks_() == old(self).toks_(), final(self).lex_ok_() == old(self).lex_ok_(),
        final(self).buffer@.len() > $0 || final(self).lexer.rest().len() == 0,
//@ loop 0
    invariant self.toks_() == old(self).toks_(), self.lex_ok_() == old(self).lex_ok_(),
    ensures self.toks_() == old(self).toks_(), self.lex_ok_() == old(self).lex_ok_(), self.buffer@.len() > $0 || self.lexer.rest().len() == 0,
    decreases self.lexer.rest().len()
//@ at loop 0 start
    let ghost b0 = self.buffer@; let ghost l0 = self.lexer.rest();
//@ at loop 0 end
    assert(self.toks_() =~= b0 + oks(l0));
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=Iterator:LexerTokens fn=next header="impl<'a, T: Lexer<'a>> LexerTokens<'a, T>"
    ensures final(self).lex_ok_() == old(self).lex_ok_(),
            old(self).toks_().len() == 0 ==> r is None && final(self).toks_() == old(self).toks_() && final(self).done_(),
            old(self).toks_().len() > 0 ==> r == Some(old(self).toks_()[0]) && final(self).toks_() == old(self).toks_().skip(1)
//@ sig fn next(&mut self) -> (r: Option<LexicalToken<'a>>)
//@ at start
    assert(old(self).toks_().len() > 0 ==> old(self).toks_().skip(1) =~= old(self).toks_().skip(1));
//@ at tail
    assert(old(self).toks_().len() > 0 ==> self.toks_() =~= old(self).toks_().skip(1));
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=LexerTokens fn=peek
    ensures final(self).toks_() == old(self).toks_(), final(self).lex_ok_() == old(self).lex_ok_(),
        r is Some <==> $0 < old(self).toks_().len(), r is Some ==> *r->0 == old(self).toks_()[$0 as int],
//@ sig fn peek<'c>(&'c mut self, $0: usize) -> (r: Option<&'c LexicalToken<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=LexerTokens fn=peek_next
    ensures final(self).toks_() == old(self).toks_(), final(self).lex_ok_() == old(self).lex_ok_(),
        r is Some <==> 0 < old(self).toks_().len(), r is Some ==> *r->0 == old(self).toks_()[0],
//@ sig fn peek_next<'c>(&'c mut self) -> (r: Option<&'c LexicalToken<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=LexerTokens fn=expect_name
    ensures final(self).lex_ok_() == old(self).lex_ok_(), final(self).toks_().len() <= old(self).toks_().len(),
            match t_name(old(self).toks_()) { Some((n, rest)) => r == Ok::<_, ParseError>(n) && final(self).toks_() == rest, None => r is Err }
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=LexerTokens fn=expect_variable
    ensures final(self).lex_ok_() == old(self).lex_ok_(), final(self).toks_().len() <= old(self).toks_().len(),
            match t_var(old(self).toks_()) { Some((n, rest)) => r == Ok::<_, ParseError>(n) && final(self).toks_() == rest, None => r is Err }
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=LexerTokens fn=expect_name_value
    ensures final(self).lex_ok_() == old(self).lex_ok_(), final(self).toks_().len() <= old(self).toks_().len(),
            match t_kw(old(self).toks_(), $0@) { Some((n, rest)) => r == Ok::<_, ParseError>(n) && final(self).toks_() == rest, None => r is Err }
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=LexerTokens fn=expect_punctuator
    ensures final(self).lex_ok_() == old(self).lex_ok_(), final(self).toks_().len() <= old(self).toks_().len(),
            match t_punct(old(self).toks_(), $0) { Some((n, rest)) => r == Ok::<_, ParseError>(n) && final(self).toks_() == rest, None => r is Err }
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=LexerTokens fn=unexpected_eof
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=LexerTokens fn=unexpected_token
    ensures final(self).lex_ok_() == old(self).lex_ok_(), final(self).toks_().len() <= old(self).toks_().len(),
            old(self).toks_().len() > 0 ==> final(self).toks_().len() < old(self).toks_().len()
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=LexerTokens fn=next_if_punctuator
    ensures final(self).lex_ok_() == old(self).lex_ok_(),
            match t_punct(old(self).toks_(), $0) { Some((n, rest)) => r == Some(n) && final(self).toks_() == rest, None => r is None && final(self).toks_() == old(self).toks_() }
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=LexerTokens fn=next_if_string_value
    ensures final(self).lex_ok_() == old(self).lex_ok_(),
            match t_str(old(self).toks_()) { Some((n, rest)) => r == Some(n) && final(self).toks_() == rest, None => r is None && final(self).toks_() == old(self).toks_() }
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=LexerTokens fn=next_if_name
    ensures final(self).lex_ok_() == old(self).lex_ok_(),
            match t_name(old(self).toks_()) { Some((n, rest)) => r == Some(n) && final(self).toks_() == rest, None => r is None && final(self).toks_() == old(self).toks_() }
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=LexerTokens fn=next_if_name_matches
    ensures final(self).lex_ok_() == old(self).lex_ok_(),
            match t_kw(old(self).toks_(), $0@) { Some((n, rest)) => r == Some(n) && final(self).toks_() == rest, None => r is None && final(self).toks_() == old(self).toks_() }
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=LexerTokens fn=peek_name
    ensures final(self).lex_ok_() == old(self).lex_ok_(), final(self).toks_() == old(self).toks_(),
            r is Some <==> is_name(old(self).toks_(), $0 as int),
            r is Some ==> *r->0 == old(self).toks_()[$0 as int]->Name_0
//@ sig fn peek_name<'c>(&'c mut self, $0: usize) -> (r: Option<&'c Name<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=LexerTokens fn=peek_variable_name
    ensures final(self).lex_ok_() == old(self).lex_ok_(), final(self).toks_() == old(self).toks_(),
            r == ($0 < old(self).toks_().len() && old(self).toks_()[$0 as int] is VariableName)
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=LexerTokens fn=peek_name_matches
    ensures final(self).lex_ok_() == old(self).lex_ok_(), final(self).toks_() == old(self).toks_(),
            r == is_kw(old(self).toks_(), $0 as int, $1@)
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=LexerTokens fn=peek_string_value
    ensures final(self).lex_ok_() == old(self).lex_ok_(), final(self).toks_() == old(self).toks_(),
            r == ($0 < old(self).toks_().len() && old(self).toks_()[$0 as int] is StringValue)
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=LexerTokens fn=peek_punctuator_matches
    ensures final(self).lex_ok_() == old(self).lex_ok_(), final(self).toks_() == old(self).toks_(),
            r == is_punct(old(self).toks_(), $0 as int, $1)
//@end
impl<'a, T: Lexer<'a>> Tokens<'a> for LexerTokens<'a, T> {
    open spec fn toks(&self) -> Seq<Tok<'a>> { self.toks_() }
    open spec fn lex_ok(&self) -> bool { self.lex_ok_() }
    open spec fn done(&self) -> bool { self.done_() }
    fn next(&mut self) -> (r: Option<LexicalToken<'a>>) { self.next() }
//@fn src=bluejay-parser/src/ast/tokens.rs impl=Tokens:LexerTokens fn=expect_name header="" priv
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=Tokens:LexerTokens fn=expect_variable header="" priv
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=Tokens:LexerTokens fn=expect_name_value header="" priv
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=Tokens:LexerTokens fn=expect_punctuator header="" priv
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=Tokens:LexerTokens fn=unexpected_eof header="" priv
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=Tokens:LexerTokens fn=unexpected_token header="" priv
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=Tokens:LexerTokens fn=next_if_punctuator header="" priv
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=Tokens:LexerTokens fn=next_if_string_value header="" priv
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=Tokens:LexerTokens fn=next_if_name header="" priv
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=Tokens:LexerTokens fn=next_if_name_matches header="" priv
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=Tokens:LexerTokens fn=peek_name header="" priv
//@ sig fn peek_name(&mut self, n: usize) -> (r: Option<&Name<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=Tokens:LexerTokens fn=peek_variable_name header="" priv
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=Tokens:LexerTokens fn=peek_name_matches header="" priv
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=Tokens:LexerTokens fn=peek_string_value header="" priv
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=Tokens:LexerTokens fn=peek_punctuator_matches header="" priv
//@end
//@fn src=bluejay-parser/src/ast/tokens.rs impl=Tokens:LexerTokens fn=into_errors header="" priv
//@end
}
} // verus!
fn main() {}
