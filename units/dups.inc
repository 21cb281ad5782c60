pub mod dupspec { use super::*;
#[verifier::opaque] pub open spec fn idxo<'a, T: Named>(m: Map<Seq<char>, Vec<&'a T>>, s: Seq<T>) -> bool { idx(m, s) }
pub open spec fn haslong<'a, T>(q: Seq<(&'a str, Vec<&'a T>)>, n: Seq<char>) -> bool { exists|j: int| #![trigger q[j]] 0 <= j < q.len() && q[j].0@ == n && q[j].1@.len() > 1 }
pub proof fn idx_push<'a, T: Named>(m: Map<Seq<char>, Vec<&'a T>>, s: Seq<T>, x: T, v: Vec<&'a T>)
    requires idxo(m, s), v@.len() == (if m.contains_key(x.nm()) { m[x.nm()]@.len() } else { 0 }) + 1 ensures idxo(m.insert(x.nm(), v), s.push(x)) { broadcast use cnt_push; reveal(idxo); assert(cnt(s, x.nm()) >= 0); assert(m.contains_key(x.nm()) <==> cnt(s, x.nm()) > 0); }
pub proof fn idx_none<'a, T: Named>(m: Map<Seq<char>, Vec<&'a T>>) requires m == Map::<Seq<char>, Vec<&'a T>>::empty() ensures idxo(m, Seq::<T>::empty()) { reveal(idxo); }
pub broadcast proof fn idx_covers<'a, T: Named>(m: Map<Seq<char>, Vec<&'a T>>, s: Seq<T>, q: Seq<(&'a str, Vec<&'a T>)>)
    requires #[trigger] idxo(m, s), #[trigger] covers(q, m) ensures forall|n: Seq<char>| #[trigger] dupn(s, n) <==> haslong(q, n), dup(s) <==> exists|n: Seq<char>| #[trigger] haslong(q, n) {
    reveal(idxo); dup_cnt(s);
    assert forall|n: Seq<char>| #[trigger] dupn(s, n) <==> haslong(q, n) by { cnt_dupn(s, n); assert(m.contains_key(n) <==> cnt(s, n) > 0); 
        if haslong(q, n) { let j = choose|j: int| #![trigger q[j]] 0 <= j < q.len() && q[j].0@ == n && q[j].1@.len() > 1; assert(m.contains_key(q[j].0@) && m[n]@.len() > 1); }
        if dupn(s, n) { assert(m.contains_key(n)); assert(m[n]@.len() == cnt(s, n));
    assert(forall|k: <&'a str as View>::V| #[trigger] m.contains_key(k) ==> exists|i: int| #![trigger q[i]] 0 <= i < q.len() && q[i].0@ == k);
    assert(forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| #![trigger q[i]] 0 <= i < q.len() && q[i].0@ == k);
 let i = choose|i: int| #![trigger q[i]] 0 <= i < q.len() && q[i].0@ == n; assert(m[q[i].0@] == q[i].1); } }
    if dup(s) { let n = choose|n: Seq<char>| #[trigger] dupn(s, n); assert(haslong(q, n)); }
    if exists|n: Seq<char>| #[trigger] haslong(q, n) { let n = choose|n: Seq<char>| #[trigger] haslong(q, n); assert(dupn(s, n)); }
}
}
pub use dupspec::*;
pub mod dups { use super::*;
broadcast use {vec_io_view, dflt_vec, dflt_btreemap, haskey_push, idx_covers};
// The index of repeated names (bluejay-validator's utils::duplicates), for elements with a name
//@fn src=bluejay-validator/src/utils.rs fn=duplicates header=""
    requires forall|x: &'a T| #[trigger] $1.requires((x,)), forall|x: &'a T, y: &'a str| #[trigger] $1.ensures((x,), y) ==> y@ == x.nm()
    ensures forall|n: Seq<char>| #[trigger] dupn($0@, n) <==> haskey(r@, n), (r@.len() > 0) <==> dup($0@)
//@ sig fn duplicates<'a, T: Named, F: Fn(&'a T) -> &'a str>($0: It<'a, T>, $1: F) -> (r: ItV<(&'a str, Vec<&'a T>)>)
//@ subst K ==> & 'a str
//@ subst Vec < T > ==> Vec < & 'a T >
//@ subst el : T ==> el : & 'a T
//@ rtype var:iter=iter
//@ loop ~or_default
@base
invariant idxo($acc@, $s.take($k))
pre proof { idx_none::<T>($acc@); assert($s.take(0) =~= Seq::<T>::empty()); assert($s.take($s.len() as int) =~= $s); }
//@ at loop ~or_default start
let ghost __m = $acc@;
//@ at loop ~or_default end
proof { let x = $s[$k - 1]; idx_push(__m, $s.take($k - 1), x, $acc@[x.nm()]); assert($s.take($k) =~= $s.take($k - 1).push(x)); assert($acc@ =~= __m.insert(x.nm(), $acc@[x.nm()])); }
//@ loop ~len
@grow acc z: z.1@.len() > 1
invariant forall|n: Seq<char>| #![trigger haskey($acc@, n)] haskey($acc@, n) <==> exists|j: int| #![trigger $s[j]] 0 <= j < $k && $s[j].0@ == n && $s[j].1@.len() > 1
ensures forall|n: Seq<char>| #![trigger haskey($acc@, n)] haskey($acc@, n) <==> haslong($s, n)
//@ at tail
proof { dup_cnt($0@);
  if dup($0@) { let n = choose|n: Seq<char>| #[trigger] dupn($0@, n); assert(haskey(__tail@, n)); assert(__tail@.len() > 0); }
  if __tail@.len() > 0 { assert(haskey(__tail@, __tail@[0].0@)); assert(dupn($0@, __tail@[0].0@)); } }
//@end
}
pub use dups::*;
