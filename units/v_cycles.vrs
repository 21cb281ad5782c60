// P09: fragment spreads form no cycle.
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@include std.inc
//@include core.inc
//@include types.inc
//@include values.inc
//@include typedefs.inc
//@include exec.inc
//@include coerror.inc
//@include validator.inc
//@include graph.inc
//@subst ::< E > ==>
//@rtype fragment_definitions=iter
pub mod cyc { use super::*;
// a walk from a to b that does not pass through v
pub open spec fn avoids<T>(v: Set<T>, p: Seq<T>) -> bool { forall|i: int| 0 <= i < p.len() - 1 ==> !v.contains(#[trigger] p[i]) }
pub open spec fn reach_av<T>(e: spec_fn(T, T) -> bool, v: Set<T>, a: T, b: T) -> bool { exists|p: Seq<T>| #[trigger] walk(e, p) && p[0] == a && p.last() == b && avoids(v, p) }
pub proof fn av_step<T>(e: spec_fn(T, T) -> bool, v: Set<T>, a: T, b: T) requires reach_av(e, v, a, b) ensures !v.contains(a), e(a, b) || exists|c: T| e(a, c) && #[trigger] reach_av(e, v.insert(a), c, b) {
    let p = choose|p: Seq<T>| #[trigger] walk(e, p) && p[0] == a && p.last() == b && avoids(v, p);
    assert(!v.contains(p[0]));
    av_short(e, v, p);
}
proof fn av_short<T>(e: spec_fn(T, T) -> bool, v: Set<T>, p: Seq<T>) requires walk(e, p), avoids(v, p) ensures e(p[0], p.last()) || exists|c: T| e(p[0], c) && #[trigger] reach_av(e, v.insert(p[0]), c, p.last()) decreases p.len() {
    let z: int = 0; assert(e(p[z], p[z + 1]));
    if p.len() > 2 {
        if exists|i: int| 0 < i < p.len() - 1 && #[trigger] p[i] == p[0] {
            let i = choose|i: int| 0 < i < p.len() - 1 && #[trigger] p[i] == p[0];
            let q = p.skip(i);
            assert forall|j: int| 0 <= j < q.len() - 1 implies #[trigger] e(q[j], q[j + 1]) by { assert(e(p[i + j], p[i + j + 1])); }
            assert(avoids(v, q)) by { assert forall|j: int| 0 <= j < q.len() - 1 implies !v.contains(#[trigger] q[j]) by { assert(!v.contains(p[i + j])); } }
            av_short(e, v, q);
        } else {
            let q = p.skip(1);
            assert forall|j: int| 0 <= j < q.len() - 1 implies #[trigger] e(q[j], q[j + 1]) by { assert(e(p[1 + j], p[1 + j + 1])); }
            assert(avoids(v.insert(p[0]), q)) by { assert forall|j: int| 0 <= j < q.len() - 1 implies !v.insert(p[0]).contains(#[trigger] q[j]) by { assert(!v.contains(p[1 + j])); } }
            assert(walk(e, q)); assert(reach_av(e, v.insert(p[0]), q[0], q.last()));
        }
    }
}
pub proof fn av_none<T>(e: spec_fn(T, T) -> bool, a: T, b: T) ensures reach_av(e, Set::empty(), a, b) <==> reach(e, a, b) {
    if reach(e, a, b) { let p = choose|p: Seq<T>| #[trigger] walk(e, p) && p[0] == a && p.last() == b; assert(avoids(Set::empty(), p)); }
}
// the last fragment of that name; the names it spreads
pub open spec fn lastdef(s: Seq<FragmentDefinition>, n: Seq<char>) -> Option<FragmentDefinition> decreases s.len() { if s.len() == 0 { None } else if s.last().s_name() == n { Some(s.last()) } else { lastdef(s.drop_last(), n) } }
pub open spec fn spreads_name(s: List<Selection>, n: Seq<char>) -> bool { exists|x: FragmentSpread| #[trigger] deep_spread(s, x) && x.s_name() == n }
// fragment a spreads b somewhere in its selection set
pub open spec fn spread_edge(d: Seq<FragmentDefinition>) -> spec_fn(Seq<char>, Seq<char>) -> bool { |a: Seq<char>, b: Seq<char>| match lastdef(d, a) { Some(f) => spreads_name(f.s_selection_set(), b), None => false } }
pub open spec fn names(q: Seq<&FragmentSpread>, n: Seq<char>) -> bool { exists|i: int| #![trigger q[i]] 0 <= i < q.len() && q[i].s_name() == n }
pub type SMap<'a> = Map<Seq<char>, (&'a FragmentDefinition, Vec<&'a FragmentSpread>)>;
pub open spec fn map_edge<'a>(m: SMap<'a>) -> spec_fn(Seq<char>, Seq<char>) -> bool { |a: Seq<char>, b: Seq<char>| m.contains_key(a) && names(m[a].1@, b) }
#[verifier::opaque] pub open spec fn mapped<'a>(m: SMap<'a>, s: Seq<FragmentDefinition>) -> bool { forall|n: Seq<char>| #![trigger m.contains_key(n)] #![trigger lastdef(s, n)] match lastdef(s, n) { Some(f) => m.contains_key(n) && *m[n].0 == f && (forall|b: Seq<char>| #[trigger] names(m[n].1@, b) <==> spreads_name(f.s_selection_set(), b)), None => !m.contains_key(n) } }
// what the spreads of a fragment say about reachability
pub proof fn step_facts<'a>(m: SMap<'a>, q: Seq<FragmentSpreadRef<'a>>, a: Seq<char>, t: Seq<char>)
    requires m.contains_key(a), q == m[a].1@ ensures forall|j: int| #![trigger q[j]] 0 <= j < q.len() ==> map_edge(m)(a, q[j].s_name()) && reach(map_edge(m), a, q[j].s_name()) && (reach(map_edge(m), q[j].s_name(), t) ==> reach(map_edge(m), a, t)) {
    let e = map_edge(m);
    assert forall|j: int| #![trigger q[j]] 0 <= j < q.len() implies e(a, q[j].s_name()) && reach(e, a, q[j].s_name()) && (reach(e, q[j].s_name(), t) ==> reach(e, a, t)) by { assert(names(m[a].1@, q[j].s_name())); reach_edge(e, a, q[j].s_name()); if reach(e, q[j].s_name(), t) { reach_then(e, a, q[j].s_name(), t); } }
}
pub type FragmentSpreadRef<'a> = &'a FragmentSpread;
pub proof fn mapped_push<'a>(m: SMap<'a>, s: Seq<FragmentDefinition>, f: &'a FragmentDefinition, v: Vec<&'a FragmentSpread>)
    requires mapped(m, s), forall|b: Seq<char>| #[trigger] names(v@, b) <==> spreads_name(f.s_selection_set(), b) ensures mapped(m.insert(f.s_name(), (f, v)), s.push(*f)) { reveal(mapped); assert(s.push(*f).drop_last() =~= s); let m2 = m.insert(f.s_name(), (f, v)); let s2 = s.push(*f);
    assert forall|n: Seq<char>| #![trigger m2.contains_key(n)] #![trigger lastdef(s2, n)] (match lastdef(s2, n) { Some(f) => m2.contains_key(n) && *m2[n].0 == f && (forall|b: Seq<char>| #[trigger] names(m2[n].1@, b) <==> spreads_name(f.s_selection_set(), b)), None => !m2.contains_key(n) }) by { assert(lastdef(s2, n) == (if f.s_name() == n { Some(*f) } else { lastdef(s, n) })); assert(m.contains_key(n) ==> lastdef(s, n) is Some); } }
pub proof fn mapped_none<'a>() ensures mapped(Map::<Seq<char>, (&'a FragmentDefinition, Vec<&'a FragmentSpread>)>::empty(), Seq::empty()) { reveal(mapped); }
pub proof fn mapped_reach<'a>(m: SMap<'a>, s: Seq<FragmentDefinition>, a: Seq<char>, b: Seq<char>) requires mapped(m, s) ensures reach(map_edge(m), a, b) <==> reach(spread_edge(s), a, b) {
    reveal(mapped);
    let e1 = map_edge(m); let e2 = spread_edge(s);
    assert forall|x: Seq<char>, y: Seq<char>| #[trigger] e1(x, y) <==> #[trigger] e2(x, y) by { assert(m.contains_key(x) ==> lastdef(s, x) is Some); if m.contains_key(x) { assert(names(m[x].1@, y) <==> spreads_name(lastdef(s, x)->0.s_selection_set(), y)); } }
    if reach(e1, a, b) { let p = choose|p: Seq<Seq<char>>| #[trigger] walk(e1, p) && p[0] == a && p.last() == b; assert forall|i: int| 0 <= i < p.len() - 1 implies #[trigger] e2(p[i], p[i + 1]) by { assert(e1(p[i], p[i + 1])); } assert(walk(e2, p)); }
    if reach(e2, a, b) { let p = choose|p: Seq<Seq<char>>| #[trigger] walk(e2, p) && p[0] == a && p.last() == b; assert forall|i: int| 0 <= i < p.len() - 1 implies #[trigger] e1(p[i], p[i + 1]) by { assert(e2(p[i], p[i + 1])); } assert(walk(e1, p)); }
}
pub proof fn lastdef_name(s: Seq<FragmentDefinition>, n: Seq<char>) ensures lastdef(s, n) is Some ==> lastdef(s, n)->0.s_name() == n decreases s.len() { if s.len() > 0 { lastdef_name(s.drop_last(), n); } }
pub proof fn reach_from<T>(e: spec_fn(T, T) -> bool, a: T, b: T) -> (c: T) requires reach(e, a, b) ensures e(a, c) { let p = choose|p: Seq<T>| #[trigger] walk(e, p) && p[0] == a && p.last() == b; let z: int = 0; assert(e(p[z], p[z + 1])); p[1] }
// a cycle of the document is a cycle through one of the entries of the map
pub proof fn cyc_facts<'a>(m: SMap<'a>, q: Seq<(&&'a str, &(&'a FragmentDefinition, Vec<&'a FragmentSpread>))>, d: Seq<FragmentDefinition>)
    requires kcovers(q, m), mapped(m, d)
    ensures forall|i: int| #![trigger q[i]] 0 <= i < q.len() ==> q[i].1.0.s_name() == q[i].0@ && (reach(map_edge(m), q[i].0@, q[i].0@) <==> reach(spread_edge(d), q[i].0@, q[i].0@)) && (reach(map_edge(m), q[i].0@, q[i].0@) <==> reach_av(map_edge(m), Set::empty(), q[i].0@, q[i].0@)),
        (exists|n: Seq<char>| #[trigger] reach(spread_edge(d), n, n)) <==> exists|i: int| #![trigger q[i]] 0 <= i < q.len() && reach(spread_edge(d), q[i].0@, q[i].0@)
{
    assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies q[i].1.0.s_name() == q[i].0@ && (reach(map_edge(m), q[i].0@, q[i].0@) <==> reach(spread_edge(d), q[i].0@, q[i].0@)) && (reach(map_edge(m), q[i].0@, q[i].0@) <==> reach_av(map_edge(m), Set::empty(), q[i].0@, q[i].0@)) by {
        let n = q[i].0@; reveal(mapped); assert(m.contains_key(n)); assert(lastdef(d, n) is Some); lastdef_name(d, n); mapped_reach(m, d, n, n); av_none(map_edge(m), n, n);
    }
    if exists|n: Seq<char>| #[trigger] reach(spread_edge(d), n, n) {
        let n = choose|n: Seq<char>| #[trigger] reach(spread_edge(d), n, n); let c = reach_from(spread_edge(d), n, n); reveal(mapped); assert(lastdef(d, n) is Some); assert(m.contains_key(n));
        kcov(q, m, n);
        let i = choose|i: int| #![trigger q[i]] 0 <= i < q.len() && q[i].0@ == n && *q[i].1 == m[n]; assert(reach(spread_edge(d), q[i].0@, q[i].0@));
    }
}
}
pub use cyc::*;
pub mod rules { use super::*; broadcast use {base_lemmas, std_lemmas, len_lemmas};
//@fn src=bluejay-validator/src/executable/document/rules/fragment_spreads_must_not_form_cycles.rs fn=visit_selection_for_fragment_spreads header=""
    ensures forall|x: &'a FragmentSpread| #[trigger] final($1)@.contains(x) <==> old($1)@.contains(x) || deep_spread(*$0, *x)
    decreases sdepth(*$0)
//@ sig fn visit_selection_for_fragment_spreads<'a>($0: &'a List<Selection>, $1: &mut Vec<&'a FragmentSpread>) -> (r: ())
//@ at start
broadcast use sdepth_sub;
//@ loop 0
@base
invariant forall|x: &'a FragmentSpread| #![trigger $1@.contains(x)] $1@.contains(x) <==> old($1)@.contains(x) || exists|j: int| #![trigger $s[j]] 0 <= j < $k && match $s[j].r() { SelectionReference::FragmentSpread(f) => f == x, SelectionReference::InlineFragment(f) => deep_spread(f.s_selection_set(), *x), SelectionReference::Field(f) => match f.o_selection_set() { Some(t) => deep_spread(t, *x), None => false } }
//@end
//@fn src=bluejay-validator/src/executable/document/rules/fragment_spreads_must_not_form_cycles.rs fn=contained_fragment_spreads header=""
    ensures forall|b: Seq<char>| #[trigger] names(r@, b) <==> spreads_name($0.s_selection_set(), b)
//@ sig fn contained_fragment_spreads<'a>($0: &'a FragmentDefinition) -> (r: Vec<&'a FragmentSpread>)
//@ at tail
proof {
    let s = $0.s_selection_set();
    assert forall|b: Seq<char>| #[trigger] names(__tail@, b) <==> spreads_name(s, b) by {
        if names(__tail@, b) { let i = choose|i: int| #![trigger __tail@[i]] 0 <= i < __tail@.len() && __tail@[i].s_name() == b; assert(__tail@.contains(__tail@[i])); assert(deep_spread(s, *__tail@[i])); }
        if spreads_name(s, b) { let x = choose|x: FragmentSpread| #[trigger] deep_spread(s, x) && x.s_name() == b; assert(__tail@.contains(&x)); let i = choose|i: int| 0 <= i < __tail@.len() && __tail@[i] == &x; assert(__tail@[i].s_name() == b); }
    }
}
//@end
//@item src=bluejay-validator/src/executable/document/rules/fragment_spreads_must_not_form_cycles.rs name=FragmentSpreadsMustNotFormCycles subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/fragment_spreads_must_not_form_cycles.rs impl=FragmentSpreadsMustNotFormCycles fn=detect_fragment_cycles header="impl<'a> FragmentSpreadsMustNotFormCycles<'a>"
    ensures r is Some ==> reach(map_edge($0@), $2@, $1.s_name()), reach_av(map_edge($0@), $3@, $2@, $1.s_name()) ==> r is Some
    decreases $0@.dom().difference($3@).len()
//@ at start
let ghost __e = map_edge($0@); let ghost __v0 = $3@;
proof { if reach_av(__e, $3@, $2@, $1.s_name()) { av_step(__e, $3@, $2@, $1.s_name()); } 
  if $0@.dom().contains($2@) && !$3@.contains($2@) { assert($0@.dom().difference($3@.insert($2@)) =~= $0@.dom().difference($3@).remove($2@)); assert($0@.dom().difference($3@).contains($2@)); } }
//@ loop ~detect_fragment_cycles
@breaks
except $acc is None
except forall|j: int| #![trigger $s[j]] 0 <= j < $k ==> $s[j].s_name() != $1.s_name() && !reach_av(__e, __v0.insert($2@), $s[j].s_name(), $1.s_name())
ensures $acc is Some ==> reach(__e, $2@, $1.s_name())
ensures $acc is None ==> forall|j: int| #![trigger $s[j]] 0 <= j < $s.len() ==> $s[j].s_name() != $1.s_name() && !reach_av(__e, __v0.insert($2@), $s[j].s_name(), $1.s_name())
pre proof { step_facts($0@, $s, $2@, $1.s_name()); }
//@end
//@fn src=bluejay-validator/src/executable/document/rules/fragment_spreads_must_not_form_cycles.rs impl=Visitor:FragmentSpreadsMustNotFormCycles fn=new header="impl<'a> FragmentSpreadsMustNotFormCycles<'a>"
    ensures (r.errors@.len() > 0) <==> exists|n: Seq<char>| #[trigger] reach(spread_edge($0.s_fragment_definitions()), n, n)
//@ loop ~contained_fragment_spreads
@base
invariant mapped($acc@, $s.take($k))
pre proof { mapped_none(); assert($s.take(0) =~= Seq::<FragmentDefinition>::empty()); assert($s.take($s.len() as int) =~= $s); }
//@ at loop ~contained_fragment_spreads start
let ghost __m = $acc@;
//@ at loop ~contained_fragment_spreads end
proof { let f = &$s[$k - 1]; mapped_push(__m, $s.take($k - 1), f, $acc@[f.s_name()].1); assert($s.take($k) =~= $s.take($k - 1).push(*f)); }
//@ loop ~detect_fragment_cycles
@grow acc z: reach(spread_edge($0.s_fragment_definitions()), z.0@, z.0@)
pre proof { cyc_facts($let(contained_fragment_spreads)@, $s, $0.s_fragment_definitions()); }
ensures ($acc@.len() > 0) <==> exists|n: Seq<char>| #[trigger] reach(spread_edge($0.s_fragment_definitions()), n, n)
//@end
//@fn src=bluejay-validator/src/executable/document/rules/fragment_spreads_must_not_form_cycles.rs impl=Rule:FragmentSpreadsMustNotFormCycles fn=into_errors header="impl<'a> FragmentSpreadsMustNotFormCycles<'a>"
    ensures r@ == self.errors@
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@end
}
} // verus!
fn main() {}
