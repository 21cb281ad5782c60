//@include lex_string_spec.inc
//@subst Token ==> STok
//@subst OuterToken ==> Doc
//@subst Cow < 'a , str > ==> CowS < 'a >
//@item src=bluejay-parser/src/lexer/logos_lexer/string_lexer.rs name=Token subst="Token ==> STok"
// pieces of the source
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80 }
pub proof fn ascii_len(s: Seq<char>) requires ascii(s) ensures blen(s) == s.len() decreases s.len() { if s.len() > 0 { let t = s.drop_last(); assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 0x80 by { assert(t[i] == s[i]); } ascii_len(t); assert(s.last() == s[s.len() - 1]); } }
#[verifier::external_body]
pub fn __rng<'b>(v: &&'b Tx, a: usize, b: usize) -> (r: &'b Tx) requires ascii(v@), a <= b <= v@.len() ensures r@ == v@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn __rng_from<'b>(v: &&'b Tx, a: usize) -> (r: &'b Tx) requires ascii(v@), a <= v@.len() ensures r@ == v@.subrange(a as int, v@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub struct ParseIntError { x: () }
// u32::from_str_radix, char::from_u32 (assumed)
#[verifier::external_body]
pub fn __from_str_radix(s: &Tx, radix: u32) -> (r: Result<u32, ParseIntError>) requires radix == 16 ensures hexes(s@) && s@.len() > 0 ==> (r is Ok <==> hexval(s@) <= u32::MAX), hexes(s@) && r is Ok ==> r->Ok_0 == hexval(s@) { unimplemented!() }
#[verifier::external_body]
pub fn __from_u32(v: u32) -> (r: Option<char>) ensures r is Some <==> scalar(v as nat), r is Some ==> r->0 == chr(v as nat) { unimplemented!() }
// the logos lexer of string contents, while a callback runs on the text matched
#[verifier::external_body]
pub struct Cb<'a> { x: &'a str }
impl<'a> Cb<'a> {
    pub uninterp spec fn txt(&self) -> Seq<char>;
    #[verifier::external_body] pub fn slice(&self) -> (r: &'a Tx) ensures r@ == self.txt() { unimplemented!() }
    #[verifier::external_body] pub fn span(&self) -> (r: Range) ensures r.end == r.start + blen(self.txt()) { unimplemented!() }
}
//@subst Span :: from ==> __span
//@subst lexer . span ( ) . into ( ) ==> __span ( lexer . span ( ) )
//@known __span __moved slice from_str_radix from_u32
//@rtype __from_str_radix=res __from_u32=opt
pub proof fn hexes_ascii(s: Seq<char>) requires hexes(s) ensures ascii(s) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as u32) < 0x80 by { assert(hx(s[i])); } }
pub proof fn hexval_bound(s: Seq<char>) requires hexes(s) ensures hexval(s) < pow16(s.len()) decreases s.len() { if s.len() > 0 { let t = s.drop_last(); assert forall|i: int| 0 <= i < t.len() implies hx(#[trigger] t[i]) by { assert(t[i] == s[i]); } hexval_bound(t); assert(hx(s[s.len() - 1])); } }
pub open spec fn pow16(n: nat) -> nat decreases n { if n == 0 { 1 } else { 16 * pow16((n - 1) as nat) } }
pub proof fn pow16_le(a: nat, b: nat) requires a <= b ensures pow16(a) <= pow16(b) decreases b { if a < b { pow16_le(a, (b - 1) as nat); } }
pub proof fn pow16_8() ensures pow16(4) == 0x10000, pow16(8) == 0x1_0000_0000 { assert(pow16(8) == 0x1_0000_0000) by (compute_only); assert(pow16(4) == 0x10000) by (compute_only); }
pub proof fn fixed_ascii(s: Seq<char>) requires is_fixed(s) ensures ascii(s.take(6)) { hexes_ascii(s.subrange(2, 6)); assert forall|i: int| 0 <= i < 6 implies (#[trigger] s.take(6)[i] as u32) < 0x80 by { if i >= 2 { assert(s.subrange(2, 6)[i - 2] == s[i]); } } }
// four digits that start like a surrogate denote one
pub proof fn surr(h: Seq<char>) requires h.len() == 4, hexes(h), h[0] == 'D' || h[0] == 'd', hd(h[1]) >= 8 ensures 0xD800 <= hexval(h) <= 0xDFFF {
    let a = h.drop_last(); let b = a.drop_last(); let c = b.drop_last();
    assert(c.drop_last() =~= Seq::<char>::empty()); assert(hexval(c.drop_last()) == 0);
    assert(hexval(c) == 16 * hexval(c.drop_last()) + hd(c.last())); assert(c.last() == h[0]); assert(hd(h[0]) == 13);
    assert(hexval(b) == 16 * hexval(c) + hd(b.last())); assert(b.last() == h[1]); assert(hexval(a) == 16 * hexval(b) + hd(a.last())); assert(a.last() == h[2]); assert(hexval(h) == 16 * hexval(a) + hd(h.last())); assert(h.last() == h[3]);
    assert(hx(h[1]) && hx(h[2]) && hx(h[3]));
}
//@fn src=bluejay-parser/src/lexer/logos_lexer/string_lexer.rs fn=parse_escaped_unicode header=""
    requires is_var(old($0).txt()), old($0).txt().len() == 4 + hrun(old($0).txt().skip(3))
    ensures r is Some ==> r->0 == chr(hexval(old($0).txt().subrange(3, old($0).txt().len() - 1))), r is Some <==> (hrun(old($0).txt().skip(3)) <= 8 && scalar(hexval(old($0).txt().subrange(3, old($0).txt().len() - 1))))
//@ at start
    proof {
        let t = $0.txt(); let n = hrun(t.skip(3)) as int; let h = t.subrange(3, 3 + n);
        hrun_le(t.skip(3)); assert(t.skip(3).take(n as int) =~= h); hexes_ascii(h);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 0x80 by { if 3 <= i < 3 + n { assert(h[i - 3] == t[i]); } }
        ascii_len(t); hexval_bound(h); pow16_8(); if n <= 8 { pow16_le(n as nat, 8); }
    }
//@end
//@fn src=bluejay-parser/src/lexer/logos_lexer/string_lexer.rs fn=parse_fixed_width_escaped_unicode header=""
    requires is_fixed(old($0).txt()), old($0).txt().len() == 6
    ensures r is Some ==> r->0 == chr(hexval(old($0).txt().subrange(2, 6))), r is Some <==> scalar(hexval(old($0).txt().subrange(2, 6)))
//@ at start
    proof { let t = $0.txt(); fixed_ascii(t); assert(t.take(6) =~= t); ascii_len(t); hexval_bound(t.subrange(2, 6)); pow16_8(); }
//@end
//@fn src=bluejay-parser/src/lexer/logos_lexer/string_lexer.rs fn=parse_surrogate_pair_escaped_unicode header=""
    requires is_pair(old($0).txt()), old($0).txt().len() == 12
    ensures r is Ok ==> r->Ok_0.1 is None && Some(seq![r->Ok_0.0]) == paired(hexval(old($0).txt().subrange(2, 6)), hexval(old($0).txt().subrange(8, 12))), r is Err ==> paired(hexval(old($0).txt().subrange(2, 6)), hexval(old($0).txt().subrange(8, 12))) is None
//@ at start
    proof {
        let t = $0.txt(); fixed_ascii(t); fixed_ascii(t.skip(6));
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 0x80 by { if i < 6 { assert(t.take(6)[i] == t[i]); } else { assert(t.skip(6).take(6)[i - 6] == t[i]); } }
        ascii_len(t);
        let h = t.subrange(2, 6); let g = t.subrange(8, 12);
        assert(t.skip(6).subrange(2, 6) =~= g);
        hexval_bound(h); hexval_bound(g); pow16_8(); surr(h);
    }
//@end

// ---- the logos lexer of string contents: its regular expressions and callbacks, longest match (assumed of logos) ----
//@pin src=bluejay-parser/src/lexer/logos_lexer/string_lexer.rs text="#[derive(Logos, Debug)] #[logos(subpattern hexdigit = r`[0-9A-Fa-f]`)] #[logos(subpattern fixedunicode = r`\\u[0-9A-Fa-f]{4}`)] #[logos(subpattern surrogate = r`\\u[Dd][89A-Fa-f][0-9A-Fa-f]{2}`)] pub(super) enum Token<'a> { #[regex(r#`[^\\`\n\r]+`#)] SourceCharacters(&'a str),  #[regex(r`(?&fixedunicode)`, parse_fixed_width_escaped_unicode)] FixedWidthEscapedUnicode(Option<char>),  #[regex( r`(?&surrogate)(?&fixedunicode)`, parse_surrogate_pair_escaped_unicode )] SurrogatePairEscapedUnicode(Result<(char, Option<char>), Span>),  #[regex(r`\\u\{(?&hexdigit)+\}`, parse_escaped_unicode)] EscapedUnicode(Option<char>),  #[token(`\\\``)] EscapedQuote,  #[token(`\\\\`)] EscapedBackslash,  #[token(`\\/`)] EscapedSlash,  #[token(`\\b`)] EscapedBackspace,  #[token(`\\f`)] EscapedFormFeed,  #[token(`\\n`)] EscapedNewline,  #[token(`\\r`)] EscapedCarriageReturn,  #[token(`\\t`)] EscapedTab,  #[token(`\``)] Quote,  #[token(`\n`)] Newline,  #[token(`\r`)] CarriageReturn, }"
#[verifier::external_body]
pub struct SLex<'a> { x: &'a str }
impl<'a> SLex<'a> {
    pub uninterp spec fn src(&self) -> Seq<char>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn rest(&self) -> Seq<char> { self.src().skip(self.pos()) }
    #[verifier::external_body] pub fn new(s: &'a Tx) -> (r: SLex<'a>) ensures r.src() == s@, r.pos() == 0 { unimplemented!() }
    pub fn spanned(self) -> (r: SLex<'a>) ensures r == self { self }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(Result<STok<'a>, ()>, Range)>)
        requires 0 <= old(self).pos() <= old(self).src().len()
        ensures final(self).src() == old(self).src(), final(self).pos() <= final(self).src().len(), r is Some ==> (r->0).1.end == blen(final(self).src().take(final(self).pos())), s_next(old(self).rest(), final(self).pos() - old(self).pos(), match r { None => None, Some((t, _)) => Some(t) }) { unimplemented!() }
}
impl<'a> IntoIt for SLex<'a> { type O = SLex<'a>; open spec fn io(self) -> SLex<'a> { self } fn into_it(self) -> (r: SLex<'a>) { self } }
// `r` is what the lexer yields at `s`, having read `n` characters
pub open spec fn s_next<'a>(s: Seq<char>, n: int, r: Option<Result<STok<'a>, ()>>) -> bool {
    if s.len() == 0 { n == 0 && r is None } else { n > 0 && r is Some && (
        if plain(s[0]) { n == run(s) && r->0 is Ok && ({ let t = r->0->Ok_0; t is SourceCharacters && t->SourceCharacters_0@ == s.take(n) }) }
        else if s[0] == '"' { n == 1 && r->0 is Ok && r->0->Ok_0 is Quote }
        else if s[0] == '\n' { n == 1 && r->0 is Ok && r->0->Ok_0 is Newline }
        else if s[0] == '\r' { n == 1 && r->0 is Ok && r->0->Ok_0 is CarriageReturn }
        else if s.len() > 1 && simple(s[1]) is Some { n == 2 && r->0 is Ok && (match s[1] { '"' => r->0->Ok_0 is EscapedQuote, '\\' => r->0->Ok_0 is EscapedBackslash, '/' => r->0->Ok_0 is EscapedSlash, 'b' => r->0->Ok_0 is EscapedBackspace, 'f' => r->0->Ok_0 is EscapedFormFeed, 'n' => r->0->Ok_0 is EscapedNewline, 'r' => r->0->Ok_0 is EscapedCarriageReturn, _ => r->0->Ok_0 is EscapedTab }) }
        else if is_pair(s) { n == 12 && r->0 is Ok && ({ let t = r->0->Ok_0; let p = paired(hexval(s.subrange(2, 6)), hexval(s.subrange(8, 12))); t is SurrogatePairEscapedUnicode && (t->SurrogatePairEscapedUnicode_0 is Ok ==> t->SurrogatePairEscapedUnicode_0->Ok_0.1 is None && p == Some(seq![t->SurrogatePairEscapedUnicode_0->Ok_0.0])) && (t->SurrogatePairEscapedUnicode_0 is Err ==> p is None) }) }
        else if is_fixed(s) { n == 6 && r->0 is Ok && ({ let t = r->0->Ok_0; t is FixedWidthEscapedUnicode && ch(t->FixedWidthEscapedUnicode_0, one(hexval(s.subrange(2, 6)))) }) }
        else if is_var(s) { let k = hrun(s.skip(3)) as int; n == 4 + k && r->0 is Ok && ({ let t = r->0->Ok_0; t is EscapedUnicode && ch(t->EscapedUnicode_0, if k <= 8 { one(hexval(s.subrange(3, 3 + k))) } else { None }) }) }
        // no token: the characters skipped hold no quote, no line terminator and no further backslash
        else { n <= 1 + run(s.skip(1)) && r->0 is Err }) }
}
pub open spec fn sofar(errors: nat, f: Seq<char>) -> Option<Seq<char>> { if errors == 0 { Some(f) } else { None } }
pub open spec fn ch(c: Option<char>, v: Option<Seq<char>>) -> bool { match c { Some(c) => v == Some(seq![c]), None => v is None } }
//@fn src=bluejay-parser/src/lexer/logos_lexer/string_lexer.rs impl=Token fn=parse id=string::parse header="impl<'a> STok<'a>"
    ensures match string_value(old($0).rem(), old($0).compat()) {
        Some((v, rest)) => (r is Ok <==> v is Some) && (r is Ok ==> r->Ok_0@ == v->0) && final($0).rem() == rest,
        None => r is Err && final($0).rem().len() == 0 }
//@ subst Lexer < 'a , OuterToken < 'a > > ==> Lx < 'a >
//@ subst Self :: lexer ==> SLex :: new
//@ subst Cow :: Borrowed ( "" ) ==> CowS :: new ( )
//@ subst outer_lexer . extras . graphql_ruby_compatibility ==> outer_lexer . compat_ ( )
//@ subst formatted . to_mut ( ) ==> formatted
//@ subst Span :: from ( $x ) + $y ==> __moved ( __span ( $x ) , $y )
//@ subst span + span_offset ==> __moved ( span , span_offset )
//@ at start
    let ghost s0 = $0.rem();
    let ghost cm = $0.compat();
    proof { assert(s0.skip(0) =~= s0); }
//@ loop 0
    invariant $0.rem() == s0, $0.compat() == cm, $it.src() == s0, 0 <= $it.pos() <= s0.len(), strv(s0, Some(seq![]), cm) == strv(s0.skip($it.pos()), sofar($mut1@.len(), $mut0@), cm)
    ensures $0.rem() == s0, strv(s0, Some(seq![]), cm) is None
    decreases s0.len() - $it.pos()
//@ at loop 0 start
    let ghost p = $it.pos();
    let ghost r = s0.skip(p);
    let ghost f0 = $mut0@;
    let ghost a = sofar($mut1@.len(), $mut0@);
    proof {
        strv_run(r, a, cm, run(r));
        if r.len() > 0 { unit_len(r, cm); assert(r.take(1) =~= seq![r[0]]); if r[0] != '"' && unit(r, cm) == (None::<Seq<char>>, 1int) { strv_bad(r, a, cm); } }
        assert forall|q: int| #![trigger s0.take(q)] p <= q <= s0.len() implies at_byte(s0, blen(s0.take(q)) as int, q) && s0.skip(q) == r.skip(q - p) by { assert(s0.skip(q) =~= r.skip(q - p)); }
        assert(s0.take(s0.len() as int) =~= s0); assert(at_byte(s0, blen(s0) as int, s0.len() as int)); assert(s0.skip(s0.len() as int).len() == 0);
    }
//@ at loop 0 end
    proof { let q = $it.pos(); assert(s0.skip(q) =~= r.skip(q - p)); if $mut1@.len() == 0 && !plain(r[0]) { assert(unit(r, cm).0 is Some); assert($mut0@ =~= f0 + unit(r, cm).0->0); } }
//@end
