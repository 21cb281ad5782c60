#[verifier::external_body]
pub fn __rng<T>(v: &Vec<T>, a: usize, b: usize) -> (r: &[T]) requires a <= b <= v@.len() ensures r@ == v@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn __rng_from<T>(v: &Vec<T>, a: usize) -> (r: &[T]) requires a <= v@.len() ensures r@ == v@.skip(a as int) { unimplemented!() }
//@include lex_block_spec.inc
//@item src=bluejay-parser/src/lexer/logos_lexer/block_string_lexer.rs name=Token subst="Token ==> BTok"
//@subst Token ==> BTok
//@subst Cow < 'a , str > ==> CowS < 'a >
impl<'a> BTok<'a> {
    pub open spec fn text(self) -> Seq<char> { match self { BTok::BlockStringCharacters(s) => s@, BTok::Whitespace(s) => s@, BTok::EscapedBlockQuote => quotes3(), _ => seq![] } }
    pub open spec fn wf(self) -> bool { match self { BTok::BlockStringCharacters(s) => s@.len() > 0 && !ws(s@[0]), BTok::Whitespace(s) => s@.len() == 1 && ws(s@[0]), BTok::EscapedBlockQuote => true, _ => false } }
}
pub open spec fn ltext<'a>(l: Seq<BTok<'a>>) -> Seq<char> decreases l.len() { if l.len() == 0 { seq![] } else { ltext(l.drop_last()) + l.last().text() } }
pub open spec fn wf_line<'a>(l: Seq<BTok<'a>>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).wf() }
pub open spec fn texts<'a>(ls: Seq<Vec<BTok<'a>>>) -> Seq<Seq<char>> { Seq::new(ls.len(), |i: int| ltext(ls[i]@)) }
pub open spec fn wf_lines<'a>(ls: Seq<Vec<BTok<'a>>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> wf_line((#[trigger] ls[i])@) }
pub open spec fn allws<'a>(l: Seq<BTok<'a>>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) is Whitespace }
pub proof fn ltext_add<'a>(a: Seq<BTok<'a>>, b: Seq<BTok<'a>>) ensures ltext(a + b) == ltext(a) + ltext(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(ltext(a) + ltext(b) =~= ltext(a)); } else { assert((a + b).drop_last() =~= a + b.drop_last()); ltext_add(a, b.drop_last()); assert((a + b).last() == b.last()); assert(ltext(a) + (ltext(b.drop_last()) + b.last().text()) =~= (ltext(a) + ltext(b.drop_last())) + b.last().text()); }
}
pub proof fn ltext_ws<'a>(l: Seq<BTok<'a>>) requires wf_line(l), allws(l) ensures ltext(l).len() == l.len(), forall|j: int| #![trigger ltext(l)[j]] 0 <= j < l.len() ==> ws(ltext(l)[j]) decreases l.len() {
    if l.len() > 0 { let t = l.drop_last(); assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).wf() && t[i] is Whitespace by { assert(t[i] == l[i]); } ltext_ws(t); assert(l.last() == l[l.len() - 1]);
        assert forall|j: int| #![trigger ltext(l)[j]] 0 <= j < l.len() implies ws(ltext(l)[j]) by { if j < t.len() { assert(ltext(l)[j] == ltext(t)[j]); } } }
}
// the first token that is not white space stands where the white space ends
pub proof fn line_lead<'a>(l: Seq<BTok<'a>>, p: int)
    requires wf_line(l), 0 <= p <= l.len(), allws(l.take(p)), p < l.len() ==> !(l[p] is Whitespace)
    ensures lead(ltext(l)) == p, blank(ltext(l)) <==> p == l.len()
{
    let t = l.take(p);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).wf() by { assert(t[i] == l[i]); }
    ltext_ws(t);
    assert(l =~= t + l.skip(p)); ltext_add(t, l.skip(p));
    assert forall|j: int| #![trigger ltext(l)[j]] 0 <= j < p implies ws(ltext(l)[j]) by { assert(ltext(l)[j] == ltext(t)[j]); }
    if p < l.len() {
        let r = l.skip(p); let one = seq![l[p]];
        assert(r =~= one + r.skip(1)); ltext_add(one, r.skip(1)); assert(one.drop_last() =~= Seq::<BTok<'a>>::empty()); assert(one.last() == l[p]); assert(ltext(one) == ltext(one.drop_last()) + one.last().text()); assert(ltext(one) =~= l[p].text()); assert(l[p].wf());
        assert(ltext(r)[0] == l[p].text()[0]); assert(ltext(l)[p] == ltext(r)[0]); assert(!ws(ltext(l)[p]));
    } else { assert(l.skip(p) =~= Seq::<BTok<'a>>::empty()); assert(ltext(l).len() == p); }
    lead_at(ltext(l), p);
}
pub open spec fn first_nw<'a>(l: Seq<BTok<'a>>) -> int decreases l.len() { if l.len() == 0 || !(l[0] is Whitespace) { 0 } else { 1 + first_nw(l.skip(1)) } }
pub proof fn first_nw_is<'a>(l: Seq<BTok<'a>>) ensures 0 <= first_nw(l) <= l.len(), allws(l.take(first_nw(l))), first_nw(l) < l.len() ==> !(l[first_nw(l)] is Whitespace) decreases l.len() {
    if l.len() > 0 && l[0] is Whitespace { first_nw_is(l.skip(1)); let p = first_nw(l); assert forall|i: int| 0 <= i < l.take(p).len() implies (#[trigger] l.take(p)[i]) is Whitespace by { if i > 0 { assert(l.skip(1).take(p - 1)[i - 1] == l[i]); } } if p < l.len() { assert(l.skip(1)[p - 1] == l[p]); } }
}
pub proof fn line_facts<'a>(l: Seq<BTok<'a>>)
    requires wf_line(l)
    ensures blank(ltext(l)) <==> allws(l), blank(ltext(l)) ==> ltext(l).len() == l.len(), lead(ltext(l)) <= l.len(),
        forall|n: int| #![trigger l.skip(n)] 0 <= n <= lead(ltext(l)) ==> ltext(l.skip(n)) == ltext(l).skip(n) && (allws(l.skip(n)) <==> allws(l))
{
    first_nw_is(l); let p = first_nw(l); line_lead(l, p);
    if p == l.len() { assert(l.take(p) =~= l); ltext_ws(l); } else { assert(!(l[p] is Whitespace)); }
    assert forall|n: int| #![trigger l.skip(n)] 0 <= n <= lead(ltext(l)) implies ltext(l.skip(n)) == ltext(l).skip(n) && (allws(l.skip(n)) <==> allws(l)) by {
        let t = l.take(n);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).wf() && t[i] is Whitespace by { assert(t[i] == l[i]); assert(l.take(p)[i] == l[i]); }
        ltext_ws(t); assert(l =~= t + l.skip(n)); ltext_add(t, l.skip(n)); assert(ltext(l).skip(n) =~= ltext(l.skip(n)));
        if allws(l) { assert forall|i: int| 0 <= i < l.skip(n).len() implies (#[trigger] l.skip(n)[i]) is Whitespace by { assert(l.skip(n)[i] == l[i + n]); } }
        if allws(l.skip(n)) { assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]) is Whitespace by { if i < n { assert(t[i] == l[i]); } else { assert(l.skip(n)[i - n] == l[i]); } } }
    }
}
pub proof fn line_leads<'a>(l: Seq<BTok<'a>>)
    requires wf_line(l)
    ensures forall|p: int| #![trigger l[p]] 0 <= p < l.len() && !(l[p] is Whitespace) && allws(l.take(p)) ==> lead(ltext(l)) == p && !blank(ltext(l)), allws(l) ==> blank(ltext(l))
{
    assert forall|p: int| #![trigger l[p]] 0 <= p < l.len() && !(l[p] is Whitespace) && allws(l.take(p)) implies lead(ltext(l)) == p && !blank(ltext(l)) by { line_lead(l, p); }
    line_facts(l);
}
// what the printer of the lines cuts off a line: the text that remains
pub proof fn line_cut<'a>(l: Seq<BTok<'a>>, n: int)
    requires wf_line(l), n >= 0, blank(ltext(l)) || n <= lead(ltext(l))
    ensures ltext(l.skip(if l.len() < n { l.len() as int } else { n })) == cut(ltext(l), n as nat), allws(l.skip(if l.len() < n { l.len() as int } else { n })) <==> blank(ltext(l))
{ line_facts(l); lead_is(ltext(l)); }
//@fn src=bluejay-parser/src/lexer/logos_lexer/block_string_lexer.rs impl=Token fn=block_string_value id=block_string_value header="impl<'a> BTok<'a>"
    requires lines@.len() >= 1, wf_lines(lines@)
    ensures r@ == bsv(texts(lines@))
//@ subst Cow :: Borrowed ( "" ) ==> CowS :: new ( )
//@ at start
    hide(lead);
    hide(trim_front);
    hide(trim_back);
    hide(bsv);
    hide(first_nw);
    hide(wf_line);
    proof { reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']); reveal_strlit("\"\"\""); assert("\"\"\""@ =~= quotes3()); }
    let ghost ls = texts(lines@);
//@ loop 0
    @base
    invariant ls == texts(lines@)
    invariant $s == lines@.skip(1)
    invariant wf_lines(lines@)
    invariant $acc is None == cmin(ls, $k + 1) is None
    invariant $acc is Some ==> $acc->0 == cmin(ls, $k + 1)->0
    ensures $acc is None == cmin(ls, ls.len() as int) is None
    ensures $acc is Some ==> $acc->0 == cmin(ls, ls.len() as int)->0
//@ at loop 0 start
    proof { if $k < $s.len() { assert($s[$k] == lines@[$k + 1]); assert(ls[$k + 1] == ltext(lines@[$k + 1]@)); line_leads(lines@[$k + 1]@); } }
//@ loop 1
    @breaks
    except $acc is None
    except $pos == $k
    except forall|j: int| 0 <= j < $k ==> (#[trigger] $s[j]) is Whitespace
    ensures $acc is None ==> allws($s)
    ensures $acc is Some ==> $acc->0 < $s.len() && !($s[$acc->0 as int] is Whitespace) && allws($s.take($acc->0 as int))
//@ loop 2
    @breaks
    invariant ls == texts(lines@)
    invariant $s == lines@
    invariant wf_lines(lines@)
    invariant $let(unwrap_or) == common(ls)
    invariant $ix == $k
    except $acc is None
    except $pos == $k
    except forall|j: int| 0 <= j < $k ==> blank(#[trigger] ls[j])
    ensures $acc is None ==> forall|j: int| 0 <= j < ls.len() ==> blank(#[trigger] ls[j])
    ensures $acc is Some ==> $acc->0 < ls.len() && !blank(ls[$acc->0 as int]) && forall|j: int| 0 <= j < $acc->0 ==> blank(#[trigger] ls[j])
//@ at loop 2 start
    proof { if $k < $s.len() { let l = lines@[$k]; assert(ls[$k] == ltext(l@)); if $k > 0 && !blank(ls[$k]) { cmin_le(ls, ls.len() as int, $k); } line_cut(l@, if $k == 0 { 0 } else { common(ls) as int }); } }
//@ loop 3
    @any t: !(t is Whitespace)
//@ loop 4
    @breaks
    invariant ls == texts(lines@)
    invariant $s == lines@.reverse()
    invariant wf_lines(lines@)
    invariant $let(unwrap_or) == common(ls)
    except $acc is None
    except $pos == $k
    except forall|j: int| ls.len() - $k <= j < ls.len() ==> blank(#[trigger] ls[j])
    ensures $acc is None ==> forall|j: int| 0 <= j < ls.len() ==> blank(#[trigger] ls[j])
    ensures $acc is Some ==> $acc->0 < ls.len() && !blank(ls[ls.len() - 1 - $acc->0]) && forall|j: int| ls.len() - $acc->0 <= j < ls.len() ==> blank(#[trigger] ls[j])
//@ at loop 4 start
    proof { if $k < $s.len() { let i = lines@.len() - 1 - $k; let l = lines@[i]; assert($s[$k] == l); assert(ls[i] == ltext(l@)); if i > 0 && !blank(ls[i]) { cmin_le(ls, ls.len() as int, i); } if i == 0 { cmin_none(ls, ls.len() as int); } line_cut(l@, common(ls) as int); } }
//@ loop 5
    @any t: !(t is Whitespace)
//@ loop 6
    @base
    invariant ls == texts(lines@)
    invariant $s == lines@.subrange(start as int, end as int)
    invariant start < end <= lines@.len()
    invariant wf_lines(lines@)
    invariant $let(unwrap_or) == common(ls)
    invariant $ix == $k
    invariant $mut0@ == join(dedent(ls).subrange(start as int, start + $k))
//@ at loop 6 start
    let ghost f0 = $mut0@;
    proof { if $k < $s.len() { let i = start + $k; let l = lines@[i]; assert($s[$k] == l); assert(ls[i] == ltext(l@)); if i > 0 && !blank(ls[i]) { cmin_le(ls, ls.len() as int, i); } line_cut(l@, if i == 0 { 0 } else { common(ls) as int }); assert(ls[i].skip(0) =~= ls[i]); } }
//@ at loop 6 end
    proof { let d = dedent(ls).subrange(start as int, start + $k); let e = dedent(ls).subrange(start as int, start + $k - 1); assert(d.drop_last() =~= e); assert(d.last() == dedent(ls)[start + $k - 1]);
        if $k == 1 { assert(e =~= Seq::<Seq<char>>::empty()); assert(f0 =~= Seq::<char>::empty()); assert($mut0@ =~= d.last()); } else { assert($mut0@ =~= f0 + seq!['\n'] + d.last()); } }
//@ loop 7
    @base
    pre let ghost f1 = $mut0@; proof { assert($s.take($s.len() as int) =~= $s); assert(f1 + ltext($s.take(0)) =~= f1); }
    invariant $mut0@ == f1 + ltext($s.take($k))
    ensures $mut0@ == f1 + ltext($s)
//@ at loop 7 end
    proof { assert($s.take($k).drop_last() =~= $s.take($k - 1)); assert($s.take($k).last() == $s[$k - 1]); }
//@ attrs #[verifier::rlimit(100)]
//@ at tail
    assert(__tail@ == bsv(ls)) by {
        if $let(position#1) is Some { let a = $let(position#1)->0 as int; let b = lines@.len() - $let(position#2)->0; bsv_at(ls, a, b); } else { bsv_blank(ls); }
    }
//@end

// ---- the logos lexer of block string contents: its regular expressions, longest match (assumed of logos) ----
//@pin src=bluejay-parser/src/lexer/logos_lexer/block_string_lexer.rs text="#[derive(Logos, Debug)] pub(super) enum Token<'a> { #[regex(r#`[^`\\\n\r \t][^`\\\n\r]*`#)] #[token(`\``)] #[token(`\\`)] BlockStringCharacters(&'a str), #[token(`\n`)] #[token(`\r\n`)] #[token(`\r`)] Newline, #[token(` `)] #[token(`\t`)] Whitespace(&'a str), #[token(`\`\`\``)] BlockQuote, #[token(`\\\`\`\``)] EscapedBlockQuote, }"
#[verifier::external_body]
pub struct BLex<'a> { x: &'a str }
impl<'a> BLex<'a> {
    pub uninterp spec fn src(&self) -> Seq<char>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn rest(&self) -> Seq<char> { self.src().skip(self.pos()) }
    #[verifier::external_body] pub fn new(s: &'a Tx) -> (r: BLex<'a>) ensures r.src() == s@, r.pos() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn span(&self) -> (r: Range) ensures r.end == blen(self.src().take(self.pos())), r.start <= r.end { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Result<BTok<'a>, ()>>)
        requires 0 <= old(self).pos() <= old(self).src().len()
        ensures final(self).src() == old(self).src(), final(self).pos() == old(self).pos() + b_len(old(self).rest()), b_next(old(self).rest(), r) { unimplemented!() }
}
pub open spec fn b_len(s: Seq<char>) -> int {
    if s.len() == 0 { 0 } else if starts(s, quotes3()) { 3 } else if starts(s, escaped3()) { 4 } else if starts(s, seq!['\r', '\n']) { 2 } else if !plain(s[0]) || ws(s[0]) { 1 } else { run(s) as int }
}
pub open spec fn b_next<'a>(s: Seq<char>, r: Option<Result<BTok<'a>, ()>>) -> bool {
    if s.len() == 0 { r is None } else { r is Some && r->0 is Ok && ({ let t = r->0->Ok_0;
        if starts(s, quotes3()) { t is BlockQuote } else if starts(s, escaped3()) { t is EscapedBlockQuote } else if s[0] == '\n' || s[0] == '\r' { t is Newline }
        else if ws(s[0]) { t is Whitespace && t->Whitespace_0@ == s.take(1) } else { t is BlockStringCharacters && t->BlockStringCharacters_0@ == s.take(b_len(s)) } }) }
}
pub proof fn b_facts(s: Seq<char>) requires s.len() > 0 ensures 0 < b_len(s) <= s.len(), b_len(s) == 1 ==> s.take(1) =~= seq![s[0]], starts(s, seq!['\r', '\n']) ==> s[0] == '\r',
    starts(s, quotes3()) ==> s[0] == '"', starts(s, escaped3()) ==> s[0] == '\\'
{ run_le(s); assert(starts(s, quotes3()) ==> s.take(3)[0] == '"'); assert(starts(s, escaped3()) ==> s.take(4)[0] == '\\'); assert(starts(s, seq!['\r', '\n']) ==> s.take(2)[0] == '\r'); if plain(s[0]) { assert(run(s) == 1 + run(s.skip(1))); } }
//@fn src=bluejay-parser/src/lexer/logos_lexer/block_string_lexer.rs impl=Token fn=parse id=block_string::parse header="impl<'a> BTok<'a>"
    ensures match block_value(old($0).rem()) { Some((v, rest)) => r is Ok && r->Ok_0@ == v && final($0).rem() == rest, None => r is Err && final($0).rem().len() == 0 }
//@ subst Lexer < 'a , OuterToken < 'a > > ==> Lx < 'a >
//@ subst Self :: lexer ==> BLex :: new
//@ loop 0
    invariant $0.rem() == s0, $mut0.src() == s0, 0 <= $mut0.pos() <= s0.len(), $mut1@.len() >= 1, wf_lines($mut1@), $mut0.pos() == 0 && $mut1@.len() == 1 && $mut1@[0]@.len() == 0 || $mut0.pos() > 0 && blk(s0, seq![seq![]]) == blk(s0.skip($mut0.pos()), texts($mut1@))
    ensures at_byte(s0, blen(s0.take($mut0.pos())) as int, $mut0.pos()), $mut0.pos() == s0.len(), s0.skip(s0.len() as int).len() == 0, $0.rem() == s0, $mut0.src() == s0, blk(s0, seq![seq![]]) is None
    decreases s0.len() - $mut0.pos()
//@ at start
    let ghost s0 = $0.rem();
    proof { assert(s0.skip(0) =~= s0); }
//@ at loop 0 start
    let ghost p = $mut0.pos();
    let ghost r = s0.skip(p);
    let ghost l0 = $mut1@;
    proof {
        if p == 0 { assert($mut1@[0]@ =~= Seq::<BTok<'a>>::empty()); assert(texts($mut1@) =~= seq![Seq::<char>::empty()]); }
        if r.len() > 0 { b_facts(r); if plain(r[0]) && !ws(r[0]) { blk_run(r, texts($mut1@), run(r)); } }
        let q = p + b_len(r);
        assert(at_byte(s0, blen(s0.take(q)) as int, q));
        assert(r.skip(q - p) =~= s0.skip(q));
    }
//@ at loop 0 end
    proof {
        let t = texts($mut1@);
        if $mut1@.len() == l0.len() {
            assert($mut1@.last()@.drop_last() =~= l0.last()@);
            assert(t =~= ext(texts(l0), $mut1@.last()@.last().text()));
        } else { assert($mut1@.last()@ =~= Seq::<BTok<'a>>::empty()); assert(t =~= texts(l0).push(seq![])); }
    }
//@end
