// ---- formatter model: what is written, as tokens ------------------------------------------------------
// KTok: a token without its position. Last: what kind of character was written last, so that two tokens never glue.
pub enum KTok { P(PunctuatorType), Name(Seq<char>), Var(Seq<char>), Int(i32), Float(f64), Str(Seq<char>) }
pub enum Last { Other, Word, Quote, Dollar }
pub open spec fn cons(x: KTok, k: Seq<KTok>) -> Seq<KTok> { seq![x] + k }
#[verifier::external_body]
pub struct Formatter { x: u8 }
pub struct FmtError { pub x: u8 }
pub type FmtResult = std::result::Result<(), FmtError>;
impl Formatter {
    pub uninterp spec fn out(&self) -> Seq<KTok>;
    pub uninterp spec fn last(&self) -> Last;
    #[verifier::external_body] pub fn new() -> (r: Formatter) ensures r.out() == Seq::<KTok>::empty(), r.last() is Other { unimplemented!() }
    #[verifier::external_body] pub fn finish(self) -> (r: String) ensures txt(r) == self.out(), self.last() is Word ==> lastw(r), self.last() is Other ==> !lastw(r) { unimplemented!() }
}
// the tokens a piece of text lexes to; whether it ends in a word
pub uninterp spec fn txt(s: String) -> Seq<KTok>;
pub uninterp spec fn lastw(s: String) -> bool;
// a text that lexes as one name: the names of a parsed document are such texts (the lexer made them)
pub uninterp spec fn nm(s: Seq<char>) -> bool;
pub broadcast axiom fn names_are_names<'a>(n: Name<'a>) ensures #[trigger] nm(n.value@);
pub broadcast axiom fn vars_are_names<'a>(n: Variable<'a>) ensures #[trigger] nm(n.value@);
// writing (std::fmt into a String never fails). Each call writes the text of exactly one token (or white space).
#[verifier::external_body] pub fn __ws(f: &mut Formatter)
    requires !(old(f).last() is Dollar) ensures final(f).out() == old(f).out(), final(f).last() is Other { unimplemented!() }
#[verifier::external_body] pub fn __punct(f: &mut Formatter, p: PunctuatorType)
    requires !(old(f).last() is Dollar), p == PunctuatorType::Ellipse ==> !(old(f).last() is Word)
    ensures final(f).out() == old(f).out().push(KTok::P(p)), final(f).last() is Other { unimplemented!() }
#[verifier::external_body] pub fn __kw(f: &mut Formatter, s: &str)
    requires !(old(f).last() is Dollar), !(old(f).last() is Word)
    ensures final(f).out() == old(f).out().push(KTok::Name(s@)), final(f).last() is Word { unimplemented!() }
#[verifier::external_body] pub fn __dollar(f: &mut Formatter)
    requires !(old(f).last() is Dollar) ensures final(f).out() == old(f).out(), final(f).last() is Dollar { unimplemented!() }
pub fn __fmt_done() -> (r: FmtResult) ensures r is Ok { Ok(()) }
pub fn __ok<T>(r: std::result::Result<T, FmtError>) -> (x: T) requires r is Ok ensures x == r->Ok_0 { match r { Ok(x) => x, Err(_) => loop invariant false decreases 0int { } } }
// widths of indentation: machine arithmetic on them is not followed
#[verifier::external_body] pub fn __plus(a: usize, b: usize) -> (r: usize) { unimplemented!() }
#[verifier::external_body] pub fn __indentation_size() -> (r: usize) { unimplemented!() }
//@subst INDENTATION_SIZE ==> __indentation_size ( )
//@fn src=bluejay-printer/src/lib.rs fn=write_indent id=write_indent trusted
    requires !(old(f).last() is Dollar)
    ensures r is Ok, final(f).out() == old(f).out(), final(f).last() == old(f).last() || final(f).last() is Other
//@ sig fn write_indent(f: &mut Formatter, indentation: usize) -> (r: FmtResult)
//@ subst write ! ( f , "{: >1$}" , "" , indentation ) ==> Ok ( ( ) )
//@end
pub open spec fn opt_kw(o: CoreOperationType) -> Seq<char> { match o { CoreOperationType::Query => "query"@, CoreOperationType::Mutation => "mutation"@, CoreOperationType::Subscription => "subscription"@ } }
// Display of the leaves (assumed): names, booleans, integers, floats (Debug: the shortest text that reads back as the
// same number), operation types, texts
pub trait Show { spec fn shown(&self, l: Last) -> Seq<KTok>; spec fn showable(&self, l: Last) -> bool; spec fn wordy(&self) -> bool;
    fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
        requires !(old(f).last() is Word), self.showable(old(f).last())
        ensures r is Ok, final(f).out() == old(f).out() + self.shown(old(f).last()), self.wordy() ==> final(f).last() is Word, !self.wordy() ==> final(f).last() is Other; }
impl Show for bool { open spec fn shown(&self, l: Last) -> Seq<KTok> { seq![KTok::Name(if *self { "true"@ } else { "false"@ })] } open spec fn showable(&self, l: Last) -> bool { !(l is Dollar) } open spec fn wordy(&self) -> bool { true }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } }
impl Show for i32 { open spec fn shown(&self, l: Last) -> Seq<KTok> { seq![KTok::Int(*self)] } open spec fn showable(&self, l: Last) -> bool { !(l is Dollar) } open spec fn wordy(&self) -> bool { true }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } }
impl Show for CoreOperationType { open spec fn shown(&self, l: Last) -> Seq<KTok> { seq![KTok::Name(opt_kw(*self))] } open spec fn showable(&self, l: Last) -> bool { !(l is Dollar) } open spec fn wordy(&self) -> bool { true }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } }
impl Show for String { open spec fn shown(&self, l: Last) -> Seq<KTok> { txt(*self) } open spec fn showable(&self, l: Last) -> bool { !(l is Dollar) } open spec fn wordy(&self) -> bool { lastw(*self) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } }
impl Show for str { open spec fn shown(&self, l: Last) -> Seq<KTok> { seq![if l is Dollar { KTok::Var(self@) } else { KTok::Name(self@) }] } open spec fn showable(&self, l: Last) -> bool { nm(self@) } open spec fn wordy(&self) -> bool { true }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } }
pub trait ShowDebug { spec fn shown_debug(&self) -> Seq<KTok>;
    fn fmt_debug(&self, f: &mut Formatter) -> (r: FmtResult)
        requires !(old(f).last() is Word), !(old(f).last() is Dollar)
        ensures r is Ok, final(f).out() == old(f).out() + self.shown_debug(), final(f).last() is Word; }
impl ShowDebug for f64 { open spec fn shown_debug(&self) -> Seq<KTok> { seq![KTok::Float(*self)] }
    #[verifier::external_body] fn fmt_debug(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } }
pub broadcast proof fn push_cons(a: Seq<KTok>, x: KTok, k: Seq<KTok>) ensures #[trigger] (a + cons(x, k)) == a.push(x) + k { assert(a + cons(x, k) =~= a.push(x) + k); }
pub broadcast proof fn one_push(a: Seq<KTok>, x: KTok) ensures #[trigger] (a + seq![x]) == a.push(x) { assert(a + seq![x] =~= a.push(x)); }
// walking a sequence
pub broadcast proof fn skip_step<A>(s: Seq<A>, i: int) requires 0 <= i < s.len() ensures #[trigger] s.skip(i).drop_first() == s.skip(i + 1) { assert(s.skip(i).drop_first() =~= s.skip(i + 1)); }
pub broadcast proof fn skip_none<A>(s: Seq<A>, i: int) requires i == 0 ensures #[trigger] s.skip(i) == s { assert(s.skip(i) =~= s); }
pub broadcast proof fn skip_all<A>(s: Seq<A>, i: int) requires i == s.len() ensures (#[trigger] s.skip(i)).len() == 0 { }
broadcast group print_lemmas { skip_step, skip_none, skip_all, push_cons, one_push, names_are_names, vars_are_names }

// the tokens of each construct, followed by k
pub open spec fn p_name<'a>(n: Name<'a>, k: Seq<KTok>) -> Seq<KTok> { cons(KTok::Name(n.value@), k) }
pub open spec fn p_value<'a>(v: GValue<'a>, k: Seq<KTok>) -> Seq<KTok> decreases v {
    match v {
        GValue::Variable(x) => cons(KTok::Var(x.value@), k),
        GValue::Integer(x) => cons(KTok::Int(x.value), k),
        GValue::Float(x) => cons(KTok::Float(x.value), k),
        GValue::String(x) => cons(KTok::Str(x.contents@), k),
        GValue::Boolean(b) => cons(KTok::Name(if b { "true"@ } else { "false"@ }), k),
        GValue::Null => cons(KTok::Name("null"@), k),
        GValue::Enum(n) => p_name(n, k),
        GValue::List(l) => cons(KTok::P(PunctuatorType::OpenSquareBracket), p_vals(l, cons(KTok::P(PunctuatorType::CloseSquareBracket), k))),
        GValue::Object(l) => cons(KTok::P(PunctuatorType::OpenBrace), p_fields(l, cons(KTok::P(PunctuatorType::CloseBrace), k))),
    }
}
pub open spec fn p_vals<'a>(s: Seq<GValue<'a>>, k: Seq<KTok>) -> Seq<KTok> decreases s { if s.len() == 0 { k } else { p_value(s[0], p_vals(s.drop_first(), k)) } }
pub open spec fn p_fields<'a>(s: Seq<(Name<'a>, GValue<'a>)>, k: Seq<KTok>) -> Seq<KTok> decreases s {
    if s.len() == 0 { k } else { p_name(s[0].0, cons(KTok::P(PunctuatorType::Colon), p_value(s[0].1, p_fields(s.drop_first(), k)))) }
}
pub open spec fn p_args<'a>(s: Seq<GArg<'a>>, k: Seq<KTok>) -> Seq<KTok> decreases s.len() {
    if s.len() == 0 { k } else { p_arg(s[0], p_args(s.drop_first(), k)) }
}
pub open spec fn p_arg<'a>(a: GArg<'a>, k: Seq<KTok>) -> Seq<KTok> { p_name(a.name, cons(KTok::P(PunctuatorType::Colon), p_value(a.value, k))) }
pub open spec fn p_arglist<'a>(s: Seq<GArg<'a>>, k: Seq<KTok>) -> Seq<KTok> {
    if s.len() == 0 { k } else { cons(KTok::P(PunctuatorType::OpenRoundBracket), p_args(s, cons(KTok::P(PunctuatorType::CloseRoundBracket), k))) }
}
pub open spec fn p_oargs<'a>(s: Option<Seq<GArg<'a>>>, k: Seq<KTok>) -> Seq<KTok> { match s { None => k, Some(s) => p_arglist(s, k) } }
pub open spec fn p_dir<'a>(d: GDir<'a>, k: Seq<KTok>) -> Seq<KTok> { cons(KTok::P(PunctuatorType::At), p_name(d.name, p_oargs(d.args, k))) }
pub open spec fn p_dirs<'a>(s: Seq<GDir<'a>>, k: Seq<KTok>) -> Seq<KTok> decreases s.len() { if s.len() == 0 { k } else { p_dir(s[0], p_dirs(s.drop_first(), k)) } }
pub open spec fn p_bang(b: bool, k: Seq<KTok>) -> Seq<KTok> { if b { cons(KTok::P(PunctuatorType::Bang), k) } else { k } }
pub open spec fn p_type<'a>(t: GType<'a>, k: Seq<KTok>) -> Seq<KTok> decreases t {
    match t { GType::Named(n, b) => p_name(n, p_bang(b, k)),
        GType::List(i, b) => cons(KTok::P(PunctuatorType::OpenSquareBracket), p_type(*i, cons(KTok::P(PunctuatorType::CloseSquareBracket), p_bang(b, k)))) }
}
pub open spec fn p_default<'a>(d: Option<GValue<'a>>, k: Seq<KTok>) -> Seq<KTok> { match d { None => k, Some(v) => cons(KTok::P(PunctuatorType::Equals), p_value(v, k)) } }

pub proof fn p_vals_at<'a>(s: Seq<GValue<'a>>, j: int) requires 0 <= j < s.len()
    ensures forall|k: Seq<KTok>| #[trigger] p_vals(s.skip(j), k) == p_value(s[j], p_vals(s.skip(j + 1), k)) { assert(s.skip(j).drop_first() =~= s.skip(j + 1)); }
pub proof fn p_fields_at<'a>(s: Seq<(Name<'a>, GValue<'a>)>, j: int) requires 0 <= j < s.len()
    ensures forall|k: Seq<KTok>| #[trigger] p_fields(s.skip(j), k) == p_name(s[j].0, cons(KTok::P(PunctuatorType::Colon), p_value(s[j].1, p_fields(s.skip(j + 1), k)))) { assert(s.skip(j).drop_first() =~= s.skip(j + 1)); }
pub proof fn p_args_at<'a>(s: Seq<GArg<'a>>, j: int) requires 0 <= j < s.len()
    ensures forall|k: Seq<KTok>| #[trigger] p_args(s.skip(j), k) == p_arg(s[j], p_args(s.skip(j + 1), k)) { assert(s.skip(j).drop_first() =~= s.skip(j + 1)); }
pub proof fn p_dirs_at<'a>(s: Seq<GDir<'a>>, j: int) requires 0 <= j < s.len()
    ensures forall|k: Seq<KTok>| #[trigger] p_dirs(s.skip(j), k) == p_dir(s[j], p_dirs(s.skip(j + 1), k)) { assert(s.skip(j).drop_first() =~= s.skip(j + 1)); }
pub broadcast proof fn assoc(a: Seq<KTok>, b: Seq<KTok>, k: Seq<KTok>) ensures #[trigger] ((a + b) + k) == a + (b + k) { assert((a + b) + k =~= a + (b + k)); }
pub broadcast proof fn empty_plus(k: Seq<KTok>) ensures #[trigger] (Seq::<KTok>::empty() + k) == k { assert(Seq::<KTok>::empty() + k =~= k); }
pub broadcast proof fn push_plus(a: Seq<KTok>, x: KTok, k: Seq<KTok>) ensures #[trigger] (a.push(x) + k) == a + cons(x, k) { assert(a.push(x) + k =~= a + cons(x, k)); }
