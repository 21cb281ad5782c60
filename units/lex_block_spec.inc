// ---- the value of a block string, from the lines between its delimiters (GraphQL: BlockStringValue) ---
pub open spec fn ws(c: char) -> bool { c == ' ' || c == '\t' }
pub open spec fn lead(l: Seq<char>) -> nat decreases l.len() { if l.len() == 0 || !ws(l[0]) { 0 } else { 1 + lead(l.skip(1)) } }
pub open spec fn blank(l: Seq<char>) -> bool { lead(l) == l.len() }
pub open spec fn omin(a: Option<nat>, x: nat) -> Option<nat> { Some(match a { None => x, Some(y) => if y < x { y } else { x } }) }
// the indentation common to the lines 1 .. k that are not blank
pub open spec fn cmin(ls: Seq<Seq<char>>, k: int) -> Option<nat> decreases k {
    if k <= 1 { None } else { let l = ls[k - 1]; if blank(l) { cmin(ls, k - 1) } else { omin(cmin(ls, k - 1), lead(l)) } }
}
pub open spec fn common(ls: Seq<Seq<char>>) -> nat { match cmin(ls, ls.len() as int) { None => 0, Some(n) => n } }
pub open spec fn cut(l: Seq<char>, n: nat) -> Seq<char> { l.skip(if l.len() < n { l.len() as int } else { n as int }) }
pub open spec fn dedent(ls: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(ls.len(), |i: int| if i == 0 { ls[0] } else { cut(ls[i], common(ls)) }) }
pub open spec fn trim_front(ls: Seq<Seq<char>>) -> Seq<Seq<char>> decreases ls.len() { if ls.len() > 0 && blank(ls[0]) { trim_front(ls.skip(1)) } else { ls } }
pub open spec fn trim_back(ls: Seq<Seq<char>>) -> Seq<Seq<char>> decreases ls.len() { if ls.len() > 0 && blank(ls.last()) { trim_back(ls.drop_last()) } else { ls } }
pub open spec fn join(ls: Seq<Seq<char>>) -> Seq<char> decreases ls.len() {
    if ls.len() == 0 { seq![] } else if ls.len() == 1 { ls[0] } else { join(ls.drop_last()) + seq!['\n'] + ls.last() }
}
pub open spec fn bsv(ls: Seq<Seq<char>>) -> Seq<char> { join(trim_back(trim_front(dedent(ls)))) }

pub proof fn lead_at(l: Seq<char>, i: int)
    requires 0 <= i <= l.len(), forall|j: int| #![trigger l[j]] 0 <= j < i ==> ws(l[j]), i < l.len() ==> !ws(l[i])
    ensures lead(l) == i
    decreases l.len()
{
    if i > 0 { assert(ws(l[0])); assert forall|j: int| #![trigger l.skip(1)[j]] 0 <= j < i - 1 implies ws(l.skip(1)[j]) by { assert(l.skip(1)[j] == l[j + 1]); } if i < l.len() { assert(l.skip(1)[i - 1] == l[i]); } lead_at(l.skip(1), i - 1); }
}
pub proof fn lead_is(l: Seq<char>)
    ensures lead(l) <= l.len(), forall|j: int| #![trigger l[j]] 0 <= j < lead(l) ==> ws(l[j]), lead(l) < l.len() ==> !ws(l[lead(l) as int])
    decreases l.len()
{
    if l.len() > 0 && ws(l[0]) {
        lead_is(l.skip(1));
        assert forall|j: int| #![trigger l[j]] 0 <= j < lead(l) implies ws(l[j]) by { if j > 0 { assert(l.skip(1)[j - 1] == l[j]); } }
        if lead(l) < l.len() { assert(l.skip(1)[lead(l) - 1] == l[lead(l) as int]); }
    }
}
// cutting off at most the leading white space: what remains is blank if and only if the line was
pub proof fn cut_blank(l: Seq<char>, n: nat)
    requires blank(l) || n <= lead(l)
    ensures blank(cut(l, n)) == blank(l)
{
    lead_is(l);
    let m: int = if l.len() < n { l.len() as int } else { n as int };
    let c = cut(l, n);
    let e = lead(l) - m;
    assert forall|j: int| #![trigger c[j]] 0 <= j < e implies ws(c[j]) by { assert(c[j] == l[j + m]); }
    if e < c.len() { assert(c[e] == l[e + m]); }
    lead_at(c, e);
}
pub proof fn cmin_le(ls: Seq<Seq<char>>, k: int, i: int)
    requires 1 <= i < k <= ls.len(), !blank(ls[i])
    ensures cmin(ls, k) is Some, cmin(ls, k)->0 <= lead(ls[i])
    decreases k
{ if i < k - 1 { cmin_le(ls, k - 1, i); } }
pub proof fn cmin_none(ls: Seq<Seq<char>>, k: int)
    requires k <= ls.len(), forall|i: int| #![trigger ls[i]] 1 <= i < k ==> blank(ls[i])
    ensures cmin(ls, k) is None
    decreases k
{ if k > 1 { cmin_none(ls, k - 1); } }
pub proof fn dedent_blank(ls: Seq<Seq<char>>, i: int)
    requires 0 <= i < ls.len()
    ensures blank(dedent(ls)[i]) == blank(ls[i])
{ if i > 0 { if !blank(ls[i]) { cmin_le(ls, ls.len() as int, i); } cut_blank(ls[i], common(ls)); } }
pub proof fn trim_front_at(ls: Seq<Seq<char>>, i: int)
    requires 0 <= i <= ls.len(), forall|j: int| #![trigger ls[j]] 0 <= j < i ==> blank(ls[j]), i < ls.len() ==> !blank(ls[i])
    ensures trim_front(ls) == ls.skip(i)
    decreases ls.len()
{
    if i > 0 {
        let t = ls.skip(1);
        assert forall|j: int| #![trigger t[j]] 0 <= j < i - 1 implies blank(t[j]) by { assert(t[j] == ls[j + 1]); }
        if i < ls.len() { assert(t[i - 1] == ls[i]); }
        trim_front_at(t, i - 1); assert(t.skip(i - 1) =~= ls.skip(i)); assert(blank(ls[0]));
    } else { assert(ls.skip(0) =~= ls); }
}
pub proof fn trim_back_at(ls: Seq<Seq<char>>, i: int)
    requires 0 <= i <= ls.len(), forall|j: int| #![trigger ls[j]] i <= j < ls.len() ==> blank(ls[j]), i > 0 ==> !blank(ls[i - 1])
    ensures trim_back(ls) == ls.take(i)
    decreases ls.len()
{
    if i < ls.len() {
        let t = ls.drop_last();
        assert(blank(ls[ls.len() - 1]));
        assert forall|j: int| #![trigger t[j]] i <= j < t.len() implies blank(t[j]) by { assert(t[j] == ls[j]); }
        if i > 0 { assert(t[i - 1] == ls[i - 1]); }
        trim_back_at(t, i); assert(t.take(i) =~= ls.take(i));
    } else { assert(ls.take(i) =~= ls); }
}
// the value, when the lines from a to b are those between the first and the last line that is not blank
pub proof fn bsv_at(ls: Seq<Seq<char>>, a: int, b: int)
    requires 0 <= a < b <= ls.len(), forall|j: int| #![trigger ls[j]] 0 <= j < a || b <= j < ls.len() ==> blank(ls[j]), !blank(ls[a]), !blank(ls[b - 1])
    ensures bsv(ls) == join(dedent(ls).subrange(a, b))
{
    let d = dedent(ls);
    assert forall|j: int| #![trigger d[j]] 0 <= j < d.len() implies blank(d[j]) == blank(ls[j]) by { dedent_blank(ls, j); }
    trim_front_at(d, a);
    let t = d.skip(a);
    assert forall|j: int| #![trigger t[j]] b - a <= j < t.len() implies blank(t[j]) by { assert(t[j] == d[j + a]); }
    assert(t[b - a - 1] == d[b - 1]);
    trim_back_at(t, b - a);
    assert(t.take(b - a) =~= d.subrange(a, b));
}
pub proof fn bsv_blank(ls: Seq<Seq<char>>)
    requires forall|j: int| #![trigger ls[j]] 0 <= j < ls.len() ==> blank(ls[j])
    ensures bsv(ls) == Seq::<char>::empty()
{
    let d = dedent(ls);
    assert forall|j: int| #![trigger d[j]] 0 <= j < d.len() implies blank(d[j]) by { dedent_blank(ls, j); }
    trim_front_at(d, d.len() as int); assert(d.skip(d.len() as int) =~= Seq::<Seq<char>>::empty());
}
// ---- the lines between the delimiters -----------------------------------------------------------------
pub open spec fn quotes3() -> Seq<char> { seq!['"', '"', '"'] }
pub open spec fn escaped3() -> Seq<char> { seq!['\\', '"', '"', '"'] }
// adds to the last line
pub open spec fn ext(ls: Seq<Seq<char>>, t: Seq<char>) -> Seq<Seq<char>> { ls.drop_last().push(ls.last() + t) }
// what follows the opening delimiter: the lines up to the closing one and what follows that, given the lines so far
pub open spec fn blk(s: Seq<char>, ls: Seq<Seq<char>>) -> Option<(Seq<Seq<char>>, Seq<char>)> decreases s.len() {
    if s.len() == 0 { None }
    else if starts(s, quotes3()) { Some((ls, s.skip(3))) }
    else if starts(s, escaped3()) { blk(s.skip(4), ext(ls, quotes3())) }
    else if starts(s, seq!['\r', '\n']) { blk(s.skip(2), ls.push(seq![])) }
    else if s[0] == '\n' || s[0] == '\r' { blk(s.skip(1), ls.push(seq![])) }
    else { blk(s.skip(1), ext(ls, seq![s[0]])) }
}
// the value of the block string whose opening delimiter `s` follows, and what follows its closing delimiter
pub open spec fn block_value(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> { match blk(s, seq![seq![]]) { Some((ls, rest)) => Some((bsv(ls), rest)), None => None } }
pub proof fn blk_run(s: Seq<char>, ls: Seq<Seq<char>>, n: nat)
    requires n <= run(s), ls.len() > 0
    ensures n <= s.len(), blk(s, ls) == blk(s.skip(n as int), ext(ls, s.take(n as int)))
    decreases n
{
    if n == 0 { assert(s.skip(0) =~= s); assert(ls.last() + s.take(0) =~= ls.last()); assert(ext(ls, s.take(0)) =~= ls); }
    else {
        assert(!starts(s, quotes3()) && !starts(s, escaped3()) && !starts(s, seq!['\r', '\n'])) by { if s.len() >= 3 { assert(s.take(3)[0] == s[0]); } if s.len() >= 4 { assert(s.take(4)[0] == s[0]); } if s.len() >= 2 { assert(s.take(2)[0] == s[0]); } }
        let l1 = ext(ls, seq![s[0]]);
        blk_run(s.skip(1), l1, (n - 1) as nat);
        assert(s.skip(1).skip(n - 1) =~= s.skip(n as int));
        assert(ls.last() + s.take(n as int) =~= l1.last() + s.skip(1).take(n - 1));
        assert(ext(l1, s.skip(1).take(n - 1)) =~= ext(ls, s.take(n as int)));
    }
}
