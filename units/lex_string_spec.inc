// ---- the value of a string (GraphQL: StringValue), from what follows its opening quote ------------------
pub open spec fn hx(c: char) -> bool { '0' <= c <= '9' || 'a' <= c <= 'f' || 'A' <= c <= 'F' }
pub open spec fn hd(c: char) -> nat { (if '0' <= c <= '9' { (c as u32) - ('0' as u32) } else if 'a' <= c <= 'f' { (c as u32) - ('a' as u32) + 10 } else { (c as u32) - ('A' as u32) + 10 }) as nat }
pub open spec fn hexes(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> hx(#[trigger] s[i]) }
pub open spec fn hexval(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { 16 * hexval(s.drop_last()) + hd(s.last()) } }
pub open spec fn hrun(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 || !hx(s[0]) { 0 } else { 1 + hrun(s.skip(1)) } }
pub open spec fn scalar(v: nat) -> bool { v < 0xD800 || 0xE000 <= v <= 0x10FFFF }
pub open spec fn is_chr(c: char, v: nat) -> bool { c as u32 == v }
pub open spec fn chr(v: nat) -> char { choose|c: char| #[trigger] is_chr(c, v) }
pub open spec fn one(v: nat) -> Option<Seq<char>> { if scalar(v) { Some(seq![chr(v)]) } else { None } }
pub open spec fn is_fixed(s: Seq<char>) -> bool { s.len() >= 6 && s[0] == '\\' && s[1] == 'u' && hexes(s.subrange(2, 6)) }
pub open spec fn is_pair(s: Seq<char>) -> bool { is_fixed(s) && (s[2] == 'D' || s[2] == 'd') && hd(s[3]) >= 8 && is_fixed(s.skip(6)) }
pub open spec fn is_var(s: Seq<char>) -> bool { s.len() >= 3 && s[0] == '\\' && s[1] == 'u' && s[2] == '{' && hrun(s.skip(3)) > 0 && s.len() > 3 + hrun(s.skip(3)) && s[3 + hrun(s.skip(3)) as int] == '}' }
pub open spec fn simple(c: char) -> Option<char> {
    if c == '"' || c == '\\' || c == '/' { Some(c) } else if c == 'b' { Some('\u{8}') } else if c == 'f' { Some('\u{c}') } else if c == 'n' { Some('\n') } else if c == 'r' { Some('\r') } else if c == 't' { Some('\t') } else { None }
}
pub open spec fn paired(l: nat, t: nat) -> Option<Seq<char>> { if 0xD800 <= l <= 0xDBFF && 0xDC00 <= t <= 0xDFFF { Some(seq![chr(((l - 0xD800) * 0x400 + (t - 0xDC00) + 0x10000) as nat)]) } else { None } }
// the first character or escape sequence of `s`: what it denotes (None: not valid) and its length
pub open spec fn unit(s: Seq<char>, compat: bool) -> (Option<Seq<char>>, int) {
    if plain(s[0]) { (Some(seq![s[0]]), 1) }
    else if s[0] == '\n' || s[0] == '\r' { (if compat { Some(seq![s[0]]) } else { None }, 1) }
    else if s.len() > 1 && simple(s[1]) is Some { (Some(seq![simple(s[1])->0]), 2) }
    else if is_pair(s) { (paired(hexval(s.subrange(2, 6)), hexval(s.subrange(8, 12))), 12) }
    else if is_fixed(s) { (one(hexval(s.subrange(2, 6))), 6) }
    // at most eight digits, like the reference implementation
    else if is_var(s) { let n = hrun(s.skip(3)) as int; (if n <= 8 { one(hexval(s.subrange(3, 3 + n))) } else { None }, 4 + n) }
    else { (None, 1) }
}
pub open spec fn cat(a: Option<Seq<char>>, b: Option<Seq<char>>) -> Option<Seq<char>> { match (a, b) { (Some(x), Some(y)) => Some(x + y), _ => None } }
// up to the closing quote: the value, `None` when some part of it is not valid, and what follows the quote
pub open spec fn strv(s: Seq<char>, acc: Option<Seq<char>>, compat: bool) -> Option<(Option<Seq<char>>, Seq<char>)> decreases s.len() via strv_dec {
    if s.len() == 0 { None } else if s[0] == '"' { Some((acc, s.skip(1))) }
    else { let u = unit(s, compat); strv(s.skip(u.1), cat(acc, u.0), compat) }
}
pub proof fn hrun_le(s: Seq<char>) ensures hrun(s) <= s.len(), hexes(s.take(hrun(s) as int)) decreases s.len() {
    if s.len() > 0 && hx(s[0]) { hrun_le(s.skip(1)); let t = s.take(hrun(s) as int); assert forall|i: int| 0 <= i < t.len() implies hx(#[trigger] t[i]) by { if i > 0 { assert(s.skip(1).take(hrun(s.skip(1)) as int)[i - 1] == t[i]); } } }
}
pub proof fn unit_len(s: Seq<char>, compat: bool) requires s.len() > 0 ensures 1 <= unit(s, compat).1 <= s.len() {
    if s.len() >= 3 { hrun_le(s.skip(3)); }
}
#[via_fn]
proof fn strv_dec(s: Seq<char>, acc: Option<Seq<char>>, compat: bool) { if s.len() > 0 && s[0] != '"' { unit_len(s, compat); } }
pub open spec fn string_value(s: Seq<char>, compat: bool) -> Option<(Option<Seq<char>>, Seq<char>)> { strv(s, Some(seq![]), compat) }
// a run of plain characters
pub proof fn strv_run(s: Seq<char>, acc: Option<Seq<char>>, compat: bool, n: nat)
    requires n <= run(s)
    ensures n <= s.len(), strv(s, acc, compat) == strv(s.skip(n as int), cat(acc, Some(s.take(n as int))), compat)
    decreases n
{
    if n == 0 { assert(s.skip(0) =~= s); assert(cat(acc, Some(s.take(0))) == acc) by { if acc is Some { assert(acc->0 + s.take(0) =~= acc->0); } } }
    else {
        let a1 = cat(acc, Some(seq![s[0]]));
        strv_run(s.skip(1), a1, compat, (n - 1) as nat);
        assert(s.skip(1).skip(n - 1) =~= s.skip(n as int));
        if acc is Some { assert(acc->0 + s.take(n as int) =~= a1->0 + s.skip(1).take(n - 1)); }
    }
}
// what follows a part that is not valid changes nothing up to the closing quote
pub proof fn strv_none(s: Seq<char>, compat: bool, n: nat)
    requires n <= run(s)
    ensures n <= s.len(), strv(s, None, compat) == strv(s.skip(n as int), None, compat)
{ strv_run(s, None, compat, n); }
pub proof fn strv_bad(s: Seq<char>, acc: Option<Seq<char>>, compat: bool)
    requires s.len() > 0, s[0] != '"', unit(s, compat) == (None::<Seq<char>>, 1int)
    ensures forall|n: int| #![trigger s.skip(n)] 1 <= n <= 1 + run(s.skip(1)) ==> strv(s, acc, compat) == strv(s.skip(n), None, compat)
{
    assert forall|n: int| #![trigger s.skip(n)] 1 <= n <= 1 + run(s.skip(1)) implies strv(s, acc, compat) == strv(s.skip(n), None, compat) by { strv_none(s.skip(1), compat, (n - 1) as nat); assert(s.skip(1).skip(n - 1) =~= s.skip(n)); }
}
