// ---- text: slices, positions in characters and in bytes ----------------------------------------------
//@method iter/0 ==> $self.it_()
//@method rev/0 ==> $self.rev_()
//@method zip/1 ==> __opt_zip($self, $1)
//@method last_mut/0 ==> $self.last_mut_()
//@rtype it_=iter rev_=iter position=opt min=opt __opt_zip=opt
//@known it_ rev_ __rng __rng_from __add_to __opt_zip min
pub trait VecIt<T> { spec fn els(&self) -> Seq<T>; fn it_(&self) -> (r: It<'_, T>) ensures r@ == self.els(); }
impl<T> VecIt<T> for Vec<T> { open spec fn els(&self) -> Seq<T> { self@ } #[verifier::external_body] fn it_(&self) -> (r: It<'_, T>) { unimplemented!() } }
impl<T> VecIt<T> for [T] { open spec fn els(&self) -> Seq<T> { self@ } #[verifier::external_body] fn it_(&self) -> (r: It<'_, T>) { unimplemented!() } }
impl<'b, T> It<'b, T> { #[verifier::external_body] pub fn rev_(self) -> (r: It<'b, T>) ensures r@ == self@.reverse() { unimplemented!() } }
pub trait LastMut<T> { spec fn lm(&self) -> Seq<T>; fn last_mut_(&mut self) -> (r: Option<&mut T>)
    ensures old(self).lm().len() == 0 ==> r is None && final(self).lm() == old(self).lm(),
        old(self).lm().len() > 0 ==> r is Some && *(r->0) == old(self).lm().last() && final(self).lm() == old(self).lm().drop_last().push(*final(r->0)); }
impl<T> LastMut<T> for Vec<T> { open spec fn lm(&self) -> Seq<T> { self@ }
    fn last_mut_(&mut self) -> (r: Option<&mut T>) { let n = self.len(); if n == 0 { None } else { Some(&mut self[n - 1]) } } }
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
pub fn opt_min(a: Option<usize>, x: usize) -> (r: Option<usize>) ensures r == Some(match a { None => x, Some(y) => if y < x { y } else { x } }) { Some(match a { None => x, Some(y) => if y < x { y } else { x } }) }
pub fn __opt_zip<A, B>(a: Option<A>, b: Option<B>) -> (r: Option<(A, B)>) ensures r == (match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None }) { match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None } }
#[verifier::external_body]
pub struct CowS<'a> { x: &'a str }
impl<'a> View for CowS<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> CowS<'a> {
    #[verifier::external_body] pub fn new() -> (r: CowS<'a>) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
}
#[verifier::external_body]
pub fn __add_to<'a>(c: &mut CowS<'a>, s: &'a str) ensures final(c)@ == old(c)@ + s@ { unimplemented!() }
// UTF-8 lengths
pub open spec fn clen(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) } }
// `n` bytes are the first `k` characters of `s`
pub open spec fn at_byte(s: Seq<char>, n: int, k: int) -> bool { 0 <= k <= s.len() && blen(s.take(k)) == n }
pub type Range = core::ops::Range<usize>;
#[verifier::external_body]
pub struct Span { x: () }
#[verifier::external_body]
pub fn __span(r: Range) -> Span { unimplemented!() }
#[verifier::external_body]
pub fn __moved(s: Span, n: usize) -> Span { unimplemented!() }
#[verifier::external_body]
pub struct Tx { x: String }
impl View for Tx { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Tx { #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == blen(self@) { unimplemented!() } }
// the logos lexer of documents, between tokens: what it has read of the token and what is left
#[verifier::external_body]
pub struct Lx<'a> { x: &'a str }
impl<'a> Lx<'a> {
    pub uninterp spec fn rem(&self) -> Seq<char>;
    pub uninterp spec fn tok(&self) -> Seq<char>;
    pub uninterp spec fn compat(&self) -> bool;
    #[verifier::external_body] pub fn remainder(&self) -> (r: &'a Tx) ensures r@ == self.rem() { unimplemented!() }
    #[verifier::external_body] pub fn compat_(&self) -> (r: bool) ensures r == self.compat() { unimplemented!() }
    #[verifier::external_body] pub fn span(&self) -> (r: Range) { unimplemented!() }
    #[verifier::external_body] pub fn bump(&mut self, n: usize)
        requires exists|k: int| at_byte(old(self).rem(), n as int, k)
        ensures final(self).compat() == old(self).compat(), forall|k: int| #[trigger] at_byte(old(self).rem(), n as int, k) ==> final(self).rem() == old(self).rem().skip(k) && final(self).tok() == old(self).tok() + old(self).rem().take(k) { unimplemented!() }
}
//@known remainder bump span lexer
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
//@item src=bluejay-parser/src/lexer/lex_error.rs name=LexError
//@item src=bluejay-parser/src/lexer/lex_error.rs name=StringValueLexError
// characters that stand for themselves in both kinds of string
pub open spec fn plain(c: char) -> bool { c != '"' && c != '\\' && c != '\n' && c != '\r' }
pub open spec fn run(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 || !plain(s[0]) { 0 } else { 1 + run(s.skip(1)) } }
pub proof fn run_le(s: Seq<char>) ensures run(s) <= s.len() decreases s.len() { if s.len() > 0 && plain(s[0]) { run_le(s.skip(1)); } }
