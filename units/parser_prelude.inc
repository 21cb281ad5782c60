// ---------------------------------------------------------------------------------------------------
// Shared specification prelude of the parser units: token values, the Tokens interface, runtime helpers.
// ---------------------------------------------------------------------------------------------------
//@method into ==> $self.into_()
//@rtype expect_name=res expect_punctuator=res expect_name_value=res expect_variable=res from_tokens=res
//@rtype next_if_name=opt next_if_punctuator=opt next_if_string_value=opt next_if_name_matches=opt peek_name=opt peek=opt var:bang_span=opt
//@rtype peek_next=opt as_name=opt
//@subst bluejay_core :: OperationType :: POSSIBLE_VALUES . iter ( ) ==> possible_values ( ) . into_iter ( )
//@subst bluejay_core :: OperationType :: POSSIBLE_VALUES ==> possible_values_static ( )
//@subst bluejay_core :: OperationType :: try_from ==> CoreOperationType :: try_from_str
//@subst bluejay_core :: OperationType ==> CoreOperationType
//@subst Arguments :: try_from_tokens ==> Arguments :: <'a, CONST> :: try_from_tokens
//@subst Directive :: try_from_tokens ==> Directive :: <'a, CONST> :: try_from_tokens
//@known merge clone span as_str as_ref name into_ is_match from_tokens try_from_tokens

#[derive(PartialEq, Eq, Structural)]
pub struct Span { pub start: usize, pub end: usize }
impl Clone for Span { fn clone(&self) -> (r: Span) ensures r == *self { Span { start: self.start, end: self.end } } }
pub open spec fn spec_merge(a: Span, o: Span) -> Span {
    Span { start: if a.start <= o.start { a.start } else { o.start }, end: if a.end >= o.end { a.end } else { o.end } }
}
// std::cmp::{min, max} on usize (assumed)
#[verifier::external_body] pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { unimplemented!() }
#[verifier::external_body] pub fn max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { unimplemented!() }
// the one field of the real struct is a Range<usize>; here its two ends are the fields
pub fn mk_span(r: std::ops::Range<usize>) -> (s: Span) ensures s.start == r.start, s.end == r.end { Span { start: r.start, end: r.end } }
//@fn src=bluejay-parser/src/span.rs impl=Span fn=merge header="impl Span" id=Span::merge
    ensures r == spec_merge(*self, *$0)
//@ subst self . 0 ==> self
//@ subst other . 0 ==> other
//@ subst Self $x ==> mk_span $x
//@end
//@item src=bluejay-parser/src/lexical_token/punctuator.rs name=PunctuatorType prefix="#[derive(Clone, Copy, PartialEq, Eq, Structural)]"
//@item src=bluejay-parser/src/lexical_token/punctuator.rs name=Punctuator
//@item src=bluejay-parser/src/lexical_token/name.rs name=Name
//@item src=bluejay-parser/src/lexical_token/variable_name.rs name=Variable
//@item src=bluejay-parser/src/lexical_token/int_value.rs name=IntValue
//@item src=bluejay-parser/src/lexical_token/float_value.rs name=FloatValue
//@item src=bluejay-parser/src/lexical_token/string_value.rs name=StringValue subst="Cow < 'a , str > ==> CowStr < 'a >"
//@item src=bluejay-parser/src/lexical_token.rs name=LexicalToken
#[verifier::external_body]
pub struct CowStr<'a> { x: &'a str }
pub type Tok<'a> = LexicalToken<'a>;
pub type R<'a, T> = Option<(T, Seq<Tok<'a>>)>;

//@fn src=bluejay-parser/src/lexical_token/punctuator.rs impl=Punctuator fn=r#type id=Punctuator::type
    ensures r == self.type_
//@end
//@fn src=bluejay-parser/src/lexical_token/name.rs impl=Name fn=as_str id=Name::as_str
    ensures r@ == self.value@
//@end
//@fn src=bluejay-parser/src/lexical_token/name.rs impl=AsRef:Name fn=as_ref id=Name::as_ref
    ensures r@ == self.value@
//@end
//@fn src=bluejay-parser/src/lexical_token/name.rs impl=HasSpan:Name fn=span id=Name::span
    ensures *r == self.span
//@end
//@fn src=bluejay-parser/src/lexical_token/punctuator.rs impl=HasSpan:Punctuator fn=span id=Punctuator::span
    ensures *r == self.span
//@end
//@fn src=bluejay-parser/src/lexical_token/variable_name.rs impl=HasSpan:Variable fn=span id=Variable::span
    ensures *r == self.span
//@end
//@fn src=bluejay-parser/src/lexical_token/int_value.rs impl=HasSpan:IntValue fn=span id=IntValue::span
    ensures *r == self.span
//@end
//@fn src=bluejay-parser/src/lexical_token/float_value.rs impl=HasSpan:FloatValue fn=span id=FloatValue::span
    ensures *r == self.span
//@end
//@fn src=bluejay-parser/src/lexical_token/string_value.rs impl=HasSpan:StringValue fn=span id=StringValue::span
    ensures *r == self.span
//@end
impl<'a> Name<'a> { pub fn into_(self) -> (r: Span) ensures r == self.span { self.span } }
impl<'a> Variable<'a> { pub fn into_(self) -> (r: Span) ensures r == self.span { self.span } }
impl Punctuator { pub fn into_(self) -> (r: Span) ensures r == self.span { self.span } }
pub open spec fn sp<'a>(t: Tok<'a>) -> Span {
    match t {
        LexicalToken::Punctuator(x) => x.span, LexicalToken::Name(x) => x.span, LexicalToken::VariableName(x) => x.span,
        LexicalToken::IntValue(x) => x.span, LexicalToken::FloatValue(x) => x.span, LexicalToken::StringValue(x) => x.span,
    }
}
impl IntValue { pub fn into_(self) -> (r: Span) ensures r == self.span { self.span } }
impl FloatValue { pub fn into_(self) -> (r: Span) ensures r == self.span { self.span } }
impl<'a> StringValue<'a> { pub fn into_(self) -> (r: Span) ensures r == self.span { self.span } }
//@fn src=bluejay-parser/src/lexical_token.rs impl=From:Span fn=from as=from_ header="impl<'a> LexicalToken<'a>" id=LexicalToken::into
    ensures r == sp($0)
//@ sig fn from_($0: LexicalToken<'a>) -> (r: Span)
//@end
//@fn src=bluejay-parser/src/lexical_token.rs impl=HasSpan:LexicalToken fn=span id=LexicalToken::span
    ensures *r == sp(*self)
//@end
impl<'a> LexicalToken<'a> {
    pub fn into_(self) -> (r: Span) ensures r == sp(self) { Self::from_(self) }
    // derived by EnumAsInner (assumed)
    #[verifier::external_body]
    pub fn as_name(&self) -> (r: Option<&Name<'a>>) ensures r is Some <==> self is Name, r is Some ==> *r->0 == self->Name_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn into_name(self) -> (r: Result<Name<'a>, ()>) ensures self is Name ==> r == Ok::<_, ()>(self->Name_0), !(self is Name) ==> r is Err { unimplemented!() }
    #[verifier::external_body]
    pub fn into_string_value(self) -> (r: Result<StringValue<'a>, ()>) ensures self is StringValue ==> r == Ok::<_, ()>(self->StringValue_0), !(self is StringValue) ==> r is Err { unimplemented!() }
}

//@item src=bluejay-parser/src/ast/parse_error.rs name=ParseError
#[verifier::external_body]
pub struct Error { x: u8 }
impl ParseError { #[verifier::external_body] pub fn into_(self) -> Error { unimplemented!() } }
#[verifier::external_body]
pub struct LexError { x: u8 }
// `errors.into_iter().map(Into::into).collect()`: element-wise conversion, same length (std iterators)
#[verifier::external_body]
pub fn conv_errors<E>(v: Vec<E>) -> (r: Vec<Error>) ensures r@.len() == v@.len() { unimplemented!() }

pub fn __hold<T>(x: &mut T) ensures *final(x) == *old(x) {}
pub fn __runtime_assert(b: bool) requires b { }
#[verifier::external_body]
pub fn __runtime_unreachable() -> ! requires false { panic!() }
pub fn __opt_take<T>(o: Option<T>) -> (r: T) requires o is Some ensures r == o->Some_0 { match o { Some(x) => x, None => loop invariant false decreases 0int { } } }
#[verifier::external_body]
pub fn __opaque_string() -> String { unimplemented!() }
#[verifier::external_body]
pub fn possible_values_static() -> &'static [&'static str] { unimplemented!() }

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@item src=bluejay-core/src/operation_type.rs name=OperationType subst="OperationType ==> CoreOperationType"
//@pin src=bluejay-core/src/operation_type.rs text="pub const POSSIBLE_VALUES: &'static [&'static str] = Self::VARIANTS;"
//@pin src=bluejay-core/src/operation_type.rs text="#[strum(serialize_all = `camelCase`)]"
//@pin src=bluejay-parser/src/ast/is_match.rs text="Self::is_match(tokens).then(|| Self::from_tokens(tokens))"
pub open spec fn core_op<'b>(s: Seq<char>) -> Option<CoreOperationType> {
    if s == "query"@ { Some(CoreOperationType::Query) } else if s == "mutation"@ { Some(CoreOperationType::Mutation) }
    else if s == "subscription"@ { Some(CoreOperationType::Subscription) } else { None }
}
// strum-derived EnumString / VARIANTS with serialize_all = camelCase (assumed; the derive is pinned above)
impl CoreOperationType {
    #[verifier::external_body]
    pub fn try_from_str(s: &str) -> (r: Result<CoreOperationType, ()>)
        ensures match core_op(s@) { Some(o) => r == Ok::<_, ()>(o), None => r is Err } { unimplemented!() }
}
pub struct VIt { pub i: usize }
impl VIt {
    pub open spec fn left(self) -> int { 3 - self.i }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'static str>)
        requires old(self).i <= 3
        ensures old(self).i == 3 ==> r is None && final(self).i == 3,
            old(self).i < 3 ==> r is Some && final(self).i == old(self).i + 1
              && r->0@ == (if old(self).i == 0 { "query"@ } else if old(self).i == 1 { "mutation"@ } else { "subscription"@ })
    { unimplemented!() }
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
}
pub fn possible_values() -> (r: VIt) ensures r.i == 0 { VIt { i: 0 } }

pub open spec fn t_name<'a>(t: Seq<Tok<'a>>) -> R<'a, Name<'a>> {
    if t.len() > 0 { match t[0] { LexicalToken::Name(n) => Some((n, t.skip(1))), _ => None } } else { None }
}
pub open spec fn t_kw<'a>(t: Seq<Tok<'a>>, kw: Seq<char>) -> R<'a, Span> {
    match t_name(t) { Some((n, r)) => if n.value@ == kw { Some((n.span, r)) } else { None }, None => None }
}
pub open spec fn t_var<'a>(t: Seq<Tok<'a>>) -> R<'a, Variable<'a>> {
    if t.len() > 0 { match t[0] { LexicalToken::VariableName(n) => Some((n, t.skip(1))), _ => None } } else { None }
}
pub open spec fn t_str<'a>(t: Seq<Tok<'a>>) -> R<'a, StringValue<'a>> {
    if t.len() > 0 { match t[0] { LexicalToken::StringValue(n) => Some((n, t.skip(1))), _ => None } } else { None }
}
pub open spec fn t_punct<'a>(t: Seq<Tok<'a>>, p: PunctuatorType) -> R<'a, Span> {
    if t.len() > 0 { match t[0] { LexicalToken::Punctuator(n) => if n.type_ == p { Some((n.span, t.skip(1))) } else { None }, _ => None } } else { None }
}
pub open spec fn is_punct<'a>(t: Seq<Tok<'a>>, n: int, p: PunctuatorType) -> bool {
    0 <= n < t.len() && match t[n] { LexicalToken::Punctuator(x) => x.type_ == p, _ => false }
}
pub open spec fn is_name<'a>(t: Seq<Tok<'a>>, n: int) -> bool { 0 <= n < t.len() && t[n] is Name }
pub open spec fn is_kw<'a>(t: Seq<Tok<'a>>, n: int, kw: Seq<char>) -> bool {
    is_name(t, n) && t[n]->Name_0.value@ == kw
}
/// n is what remains of o after consuming a prefix
pub open spec fn suffix<'a>(n: Seq<Tok<'a>>, o: Seq<Tok<'a>>) -> bool {
    n.len() <= o.len() && n == o.skip(o.len() - n.len())
}

// The token source as the parser sees it. `toks()`: tokens still to come, lexical errors skipped;
// `lex_ok()`: the whole input has no lexical error; `done()`: the source is known to be exhausted.
pub trait Tokens<'a>: Sized {
    spec fn toks(&self) -> Seq<Tok<'a>>;
    spec fn lex_ok(&self) -> bool;
    spec fn done(&self) -> bool;
    fn next(&mut self) -> (r: Option<LexicalToken<'a>>)
        ensures final(self).lex_ok() == old(self).lex_ok(),
            old(self).toks().len() == 0 ==> r is None && final(self).toks() == old(self).toks() && final(self).done(),
            old(self).toks().len() > 0 ==> r == Some(old(self).toks()[0]) && final(self).toks() == old(self).toks().skip(1);
    fn expect_variable(&mut self) -> (r: Result<Variable<'a>, ParseError>)
        ensures final(self).lex_ok() == old(self).lex_ok(), final(self).toks().len() <= old(self).toks().len(),
            match t_var(old(self).toks()) { Some((n, rest)) => r == Ok::<_, ParseError>(n) && final(self).toks() == rest, None => r is Err };
    fn expect_name(&mut self) -> (r: Result<Name<'a>, ParseError>)
        ensures final(self).lex_ok() == old(self).lex_ok(), final(self).toks().len() <= old(self).toks().len(),
            match t_name(old(self).toks()) { Some((n, rest)) => r == Ok::<_, ParseError>(n) && final(self).toks() == rest, None => r is Err };
    fn expect_name_value(&mut self, value: &str) -> (r: Result<Span, ParseError>)
        ensures final(self).lex_ok() == old(self).lex_ok(), final(self).toks().len() <= old(self).toks().len(),
            match t_kw(old(self).toks(), value@) { Some((n, rest)) => r == Ok::<_, ParseError>(n) && final(self).toks() == rest, None => r is Err };
    fn expect_punctuator(&mut self, p: PunctuatorType) -> (r: Result<Span, ParseError>)
        ensures final(self).lex_ok() == old(self).lex_ok(), final(self).toks().len() <= old(self).toks().len(),
            match t_punct(old(self).toks(), p) { Some((n, rest)) => r == Ok::<_, ParseError>(n) && final(self).toks() == rest, None => r is Err };
    fn unexpected_eof(&self) -> ParseError;
    fn unexpected_token(&mut self) -> (r: ParseError)
        ensures final(self).lex_ok() == old(self).lex_ok(), final(self).toks().len() <= old(self).toks().len(),
            old(self).toks().len() > 0 ==> final(self).toks().len() < old(self).toks().len();
    fn next_if_punctuator(&mut self, p: PunctuatorType) -> (r: Option<Span>)
        ensures final(self).lex_ok() == old(self).lex_ok(),
            match t_punct(old(self).toks(), p) { Some((n, rest)) => r == Some(n) && final(self).toks() == rest, None => r is None && final(self).toks() == old(self).toks() };
    fn next_if_string_value(&mut self) -> (r: Option<StringValue<'a>>)
        ensures final(self).lex_ok() == old(self).lex_ok(),
            match t_str(old(self).toks()) { Some((n, rest)) => r == Some(n) && final(self).toks() == rest, None => r is None && final(self).toks() == old(self).toks() };
    fn next_if_name(&mut self) -> (r: Option<Name<'a>>)
        ensures final(self).lex_ok() == old(self).lex_ok(),
            match t_name(old(self).toks()) { Some((n, rest)) => r == Some(n) && final(self).toks() == rest, None => r is None && final(self).toks() == old(self).toks() };
    fn next_if_name_matches(&mut self, name: &str) -> (r: Option<Span>)
        ensures final(self).lex_ok() == old(self).lex_ok(),
            match t_kw(old(self).toks(), name@) { Some((n, rest)) => r == Some(n) && final(self).toks() == rest, None => r is None && final(self).toks() == old(self).toks() };
    fn peek_variable_name(&mut self, n: usize) -> (r: bool)
        ensures final(self).lex_ok() == old(self).lex_ok(), final(self).toks() == old(self).toks(),
            r == (n < old(self).toks().len() && old(self).toks()[n as int] is VariableName);
    fn peek_name(&mut self, n: usize) -> (r: Option<&Name<'a>>)
        ensures final(self).lex_ok() == old(self).lex_ok(), final(self).toks() == old(self).toks(),
            r is Some <==> is_name(old(self).toks(), n as int),
            r is Some ==> *r->0 == old(self).toks()[n as int]->Name_0;
    fn peek_name_matches(&mut self, n: usize, name: &str) -> (r: bool)
        ensures final(self).lex_ok() == old(self).lex_ok(), final(self).toks() == old(self).toks(),
            r == is_kw(old(self).toks(), n as int, name@);
    fn peek_string_value(&mut self, n: usize) -> (r: bool)
        ensures final(self).lex_ok() == old(self).lex_ok(), final(self).toks() == old(self).toks(),
            r == (n < old(self).toks().len() && old(self).toks()[n as int] is StringValue);
    fn peek_punctuator_matches(&mut self, n: usize, p: PunctuatorType) -> (r: bool)
        ensures final(self).lex_ok() == old(self).lex_ok(), final(self).toks() == old(self).toks(),
            r == is_punct(old(self).toks(), n as int, p);
    fn into_errors(self) -> (r: Vec<(LexError, Span)>)
        ensures self.done() ==> (r@.len() == 0 <==> self.lex_ok());
}
