pub mod graphmod {
use super::*;
// ---------------------------------------------------------------------------------------------------
// Reachability in a directed graph, and the selection trees of a document.
// ---------------------------------------------------------------------------------------------------
pub open spec fn walk<T>(e: spec_fn(T, T) -> bool, p: Seq<T>) -> bool { p.len() >= 2 && forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] e(p[i], p[i + 1]) }
pub open spec fn reach<T>(e: spec_fn(T, T) -> bool, a: T, b: T) -> bool { exists|p: Seq<T>| #[trigger] walk(e, p) && p[0] == a && p.last() == b }
pub proof fn reach_edge<T>(e: spec_fn(T, T) -> bool, a: T, b: T) requires e(a, b) ensures reach(e, a, b) { assert(walk(e, seq![a, b])); }
pub proof fn reach_then<T>(e: spec_fn(T, T) -> bool, a: T, b: T, c: T) requires e(a, b), reach(e, b, c) ensures reach(e, a, c) {
    let p = choose|p: Seq<T>| #[trigger] walk(e, p) && p[0] == b && p.last() == c;
    let q = seq![a] + p;
    assert forall|i: int| 0 <= i < q.len() - 1 implies #[trigger] e(q[i], q[i + 1]) by { if i > 0 { assert(e(p[i - 1], p[i - 1 + 1])); } }
    assert(q.last() == c); assert(walk(e, q));
}
pub proof fn reach_trans<T>(e: spec_fn(T, T) -> bool, a: T, b: T, c: T) requires reach(e, a, b), reach(e, b, c) ensures reach(e, a, c) {
    let p = choose|p: Seq<T>| #[trigger] walk(e, p) && p[0] == a && p.last() == b;
    let q = choose|q: Seq<T>| #[trigger] walk(e, q) && q[0] == b && q.last() == c;
    let r = p + q.skip(1);
    assert forall|i: int| 0 <= i < r.len() - 1 implies #[trigger] e(r[i], r[i + 1]) by {
        if i < p.len() - 1 { assert(e(p[i], p[i + 1])); } else { let j = i - (p.len() - 1); assert(e(q[j], q[j + 1])); if j == 0 { assert(r[i] == p.last()); } else { assert(r[i] == q[j]); } assert(r[i + 1] == q[j + 1]); }
    }
    assert(r[0] == a); assert(r.last() == c) by { assert(r.last() == q[q.len() - 1]); }
    assert(walk(e, r));
}
// everything reachable lies in a set that holds the successors of the start and is closed under edges
pub proof fn reach_closed<T>(e: spec_fn(T, T) -> bool, v: Set<T>, a: T, b: T)
    requires reach(e, a, b), forall|y: T| e(a, y) ==> #[trigger] v.contains(y), forall|x: T, y: T| v.contains(x) && #[trigger] e(x, y) ==> v.contains(y)
    ensures v.contains(b)
{
    let p = choose|p: Seq<T>| #[trigger] walk(e, p) && p[0] == a && p.last() == b;
    walk_closed(e, v, p, p.len() - 1);
}
proof fn walk_closed<T>(e: spec_fn(T, T) -> bool, v: Set<T>, p: Seq<T>, i: int)
    requires walk(e, p), 1 <= i < p.len(), forall|y: T| e(p[0], y) ==> #[trigger] v.contains(y), forall|x: T, y: T| v.contains(x) && #[trigger] e(x, y) ==> v.contains(y)
    ensures v.contains(p[i]) decreases i
{
    assert(e(p[i - 1], p[i - 1 + 1]));
    if i > 1 { walk_closed(e, v, p, i - 1); }
}
// the same for a predicate
pub proof fn reach_inv<T>(e: spec_fn(T, T) -> bool, v: spec_fn(T) -> bool, a: T, b: T)
    requires reach(e, a, b), forall|y: T| #[trigger] e(a, y) ==> v(y), forall|x: T, y: T| v(x) && #[trigger] e(x, y) ==> v(y)
    ensures v(b)
{
    let p = choose|p: Seq<T>| #[trigger] walk(e, p) && p[0] == a && p.last() == b;
    walk_inv(e, v, p, p.len() - 1);
}
proof fn walk_inv<T>(e: spec_fn(T, T) -> bool, v: spec_fn(T) -> bool, p: Seq<T>, i: int)
    requires walk(e, p), 1 <= i < p.len(), forall|y: T| #[trigger] e(p[0], y) ==> v(y), forall|x: T, y: T| v(x) && #[trigger] e(x, y) ==> v(y)
    ensures v(p[i]) decreases i
{
    assert(e(p[i - 1], p[i - 1 + 1]));
    if i > 1 { walk_inv(e, v, p, i - 1); }
}
// selection sets are finite trees (assumed of the document)
pub uninterp spec fn sdepth(s: List<Selection>) -> nat;
pub broadcast axiom fn sdepth_sub(s: List<Selection>, i: int) requires 0 <= i < s@.len()
    ensures match (#[trigger] s@[i]).r() { SelectionReference::Field(f) => f.o_selection_set() is Some ==> sdepth(f.o_selection_set()->0) < sdepth(s), SelectionReference::InlineFragment(f) => sdepth(f.s_selection_set()) < sdepth(s), _ => true };
// response names and spreads at the root of a selection set (through inline fragments); spreads anywhere in it
pub open spec fn root_field(s: List<Selection>, n: Seq<char>) -> bool decreases sdepth(s) via root_field_dec
    { exists|i: int| #![trigger s@[i]] 0 <= i < s@.len() && match s@[i].r() { SelectionReference::Field(f) => f.s_response_name() == n, SelectionReference::InlineFragment(f) => root_field(f.s_selection_set(), n), _ => false } }
#[via_fn] proof fn root_field_dec(s: List<Selection>, n: Seq<char>) { broadcast use sdepth_sub; }
pub open spec fn root_spread(s: List<Selection>, n: Seq<char>) -> bool decreases sdepth(s) via root_spread_dec
    { exists|i: int| #![trigger s@[i]] 0 <= i < s@.len() && match s@[i].r() { SelectionReference::FragmentSpread(f) => f.s_name() == n, SelectionReference::InlineFragment(f) => root_spread(f.s_selection_set(), n), _ => false } }
#[via_fn] proof fn root_spread_dec(s: List<Selection>, n: Seq<char>) { broadcast use sdepth_sub; }
pub open spec fn deep_spread(s: List<Selection>, x: FragmentSpread) -> bool decreases sdepth(s) via deep_spread_dec
    { exists|i: int| #![trigger s@[i]] 0 <= i < s@.len() && match s@[i].r() { SelectionReference::FragmentSpread(f) => *f == x, SelectionReference::InlineFragment(f) => deep_spread(f.s_selection_set(), x), SelectionReference::Field(f) => match f.o_selection_set() { Some(t) => deep_spread(t, x), None => false } } }
#[via_fn] proof fn deep_spread_dec(s: List<Selection>, x: FragmentSpread) { broadcast use sdepth_sub; }
// the fragment of that name
pub open spec fn frag(d: ExecutableDocument, n: Seq<char>) -> Option<FragmentDefinition> { first(d.s_fragment_definitions(), n) }
// a fragment spreads another at its root
pub open spec fn root_edge(d: ExecutableDocument) -> spec_fn(Seq<char>, Seq<char>) -> bool { |a: Seq<char>, b: Seq<char>| frag(d, a) is Some && root_spread(frag(d, a)->0.s_selection_set(), b) }
// the response names of a selection set: its own and those of the fragments it spreads, directly or not
pub open spec fn spread_reach(d: ExecutableDocument, s: List<Selection>, g: Seq<char>) -> bool { root_spread(s, g) || exists|f: Seq<char>| root_spread(s, f) && #[trigger] reach(root_edge(d), f, g) }
#[verifier::opaque]
pub open spec fn response_name_of(d: ExecutableDocument, s: List<Selection>, n: Seq<char>) -> bool {
    root_field(s, n) || exists|g: Seq<char>| #[trigger] spread_reach(d, s, g) && frag(d, g) is Some && root_field(frag(d, g)->0.s_selection_set(), n)
}
pub proof fn lift_inline(d: ExecutableDocument, s: List<Selection>, i: int, t: List<Selection>)
    requires 0 <= i < s@.len(), s@[i].r() is InlineFragment, s@[i].r()->InlineFragment_0.s_selection_set() == t
    ensures forall|g: Seq<char>| #[trigger] spread_reach(d, t, g) ==> spread_reach(d, s, g), forall|n: Seq<char>| #[trigger] response_name_of(d, t, n) ==> response_name_of(d, s, n), forall|n: Seq<char>| #[trigger] root_field(t, n) ==> root_field(s, n)
{
    reveal(response_name_of);
    assert(forall|g: Seq<char>| root_spread(t, g) ==> #[trigger] root_spread(s, g)) by { assert forall|g: Seq<char>| root_spread(t, g) implies #[trigger] root_spread(s, g) by { let x = s@[i]; } }
    assert forall|g: Seq<char>| #[trigger] spread_reach(d, t, g) implies spread_reach(d, s, g) by {
        if root_spread(t, g) { assert(root_spread(s, g)); } else { let f = choose|f: Seq<char>| root_spread(t, f) && #[trigger] reach(root_edge(d), f, g); assert(root_spread(s, f)); }
    }
    assert forall|n: Seq<char>| #[trigger] root_field(t, n) implies root_field(s, n) by { let x = s@[i]; }
    assert forall|n: Seq<char>| #[trigger] response_name_of(d, t, n) implies response_name_of(d, s, n) by {
        if root_field(t, n) { } else { let g = choose|g: Seq<char>| #[trigger] spread_reach(d, t, g) && frag(d, g) is Some && root_field(frag(d, g)->0.s_selection_set(), n); assert(spread_reach(d, s, g)); }
    }
}
pub proof fn lift_spread(d: ExecutableDocument, s: List<Selection>, i: int, h: Seq<char>)
    requires 0 <= i < s@.len(), s@[i].r() is FragmentSpread, s@[i].r()->FragmentSpread_0.s_name() == h
    ensures root_spread(s, h), spread_reach(d, s, h), frag(d, h) is Some ==> forall|g: Seq<char>| #[trigger] spread_reach(d, frag(d, h)->0.s_selection_set(), g) ==> spread_reach(d, s, g),
        frag(d, h) is Some ==> forall|n: Seq<char>| #[trigger] response_name_of(d, frag(d, h)->0.s_selection_set(), n) ==> response_name_of(d, s, n)
{
    reveal(response_name_of);
    assert(root_spread(s, h)) by { let x = s@[i]; }
    if frag(d, h) is Some {
        let t = frag(d, h)->0.s_selection_set();
        assert forall|g: Seq<char>| #[trigger] spread_reach(d, t, g) implies spread_reach(d, s, g) by {
            if root_spread(t, g) { assert(root_edge(d)(h, g)); reach_edge(root_edge(d), h, g); } else { let f = choose|f: Seq<char>| root_spread(t, f) && #[trigger] reach(root_edge(d), f, g); assert(root_edge(d)(h, f)); reach_then(root_edge(d), h, f, g); }
        }
        assert forall|n: Seq<char>| #[trigger] response_name_of(d, t, n) implies response_name_of(d, s, n) by {
            if root_field(t, n) { assert(spread_reach(d, s, h)); } else { let g = choose|g: Seq<char>| #[trigger] spread_reach(d, t, g) && frag(d, g) is Some && root_field(frag(d, g)->0.s_selection_set(), n); assert(spread_reach(d, s, g)); }
        }
    }
}
}
pub use graphmod::*;
