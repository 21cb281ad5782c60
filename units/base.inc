pub mod basemod {
use super::*;
// ---------------------------------------------------------------------------------------------------
// Sequences behind the iterators of the traits, and runtime helpers the lowering uses.
// ---------------------------------------------------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct List<T> { x: Vec<T> }
impl<T> View for List<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> List<T> {
    // AsIter: iter() visits the elements once, in order
    #[verifier::external_body] pub fn iter(&self) -> (r: It<'_, T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
pub open spec fn olist<T>(o: Option<List<T>>) -> Seq<T> { match o { Some(l) => l@, None => seq![] } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<'a, T> { x: &'a T }
impl<'a, T> View for It<'a, T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<'a, T> It<'a, T> {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && *r->0 == old(self)@[0] && final(self)@ == old(self)@.skip(1) { unimplemented!() }
    pub fn into_it(self) -> (r: Self) ensures r == self { self }
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ItV<T> { x: Vec<T> }
impl<T> View for ItV<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> ItV<T> {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && r->0 == old(self)@[0] && final(self)@ == old(self)@.skip(1) { unimplemented!() }
    pub fn into_it(self) -> (r: Self) ensures r == self { self }
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
}
pub trait IntoIt: Sized { type O; spec fn io(self) -> Self::O; fn into_it(self) -> (r: Self::O) ensures r == self.io(); }
pub fn __hold<T>(x: &mut T) ensures *final(x) == *old(x) {}
pub fn __runtime_assert(b: bool) requires b { }
#[verifier::external_body]
pub fn __runtime_unreachable() -> ! requires false { panic!() }
pub fn __opt_take<T>(o: Option<T>) -> (r: T) requires o is Some ensures r == o->Some_0 { match o { Some(x) => x, None => loop invariant false decreases 0int { } } }
#[verifier::external_body]
pub fn __opaque_string() -> String { unimplemented!() }
#[verifier::external_body]
pub fn oiter<T>(o: Option<&List<T>>) -> (r: It<'_, T>) ensures r@ == (match o { Some(l) => l@, None => Seq::<T>::empty() }) { unimplemented!() }
#[verifier::external_body]
pub fn itv<T>(v: Vec<T>) -> (r: ItV<T>) ensures r@ == v@ { unimplemented!() }
pub fn into_it<X: IntoIt>(x: X) -> (r: X::O) ensures r == x.io() { x.into_it() }
impl<T> IntoIt for ItV<T> { type O = ItV<T>; open spec fn io(self) -> ItV<T> { self } fn into_it(self) -> (r: ItV<T>) { self } }
impl<'a, T> IntoIt for It<'a, T> { type O = It<'a, T>; open spec fn io(self) -> It<'a, T> { self } fn into_it(self) -> (r: It<'a, T>) { self } }
pub uninterp spec fn vec_io<T>(v: Vec<T>) -> ItV<T>;
pub broadcast axiom fn vec_io_view<T>(v: Vec<T>) ensures #[trigger] vec_io(v)@ == v@;
impl<T> IntoIt for Vec<T> { type O = ItV<T>; open spec fn io(self) -> ItV<T> { vec_io(self) } #[verifier::external_body] fn into_it(self) -> (r: ItV<T>) { unimplemented!() } }
// Extend: the argument is a vector or an iterator over values
pub trait ToSeq<T>: Sized { spec fn ts(self) -> Seq<T>; }
impl<T> ToSeq<T> for Vec<T> { open spec fn ts(self) -> Seq<T> { self@ } }
impl<T> ToSeq<T> for ItV<T> { open spec fn ts(self) -> Seq<T> { self@ } }
pub trait ExtendX<T>: Sized + View<V = Seq<T>> { fn __extend<A: ToSeq<T>>(&mut self, a: A) ensures final(self)@ == old(self)@ + a.ts(); }
impl<T> ExtendX<T> for Vec<T> { #[verifier::external_body] fn __extend<A: ToSeq<T>>(&mut self, a: A) { unimplemented!() } }
pub broadcast proof fn push_contains<T>(s: Seq<T>, x: T, c: T) ensures #[trigger] s.push(x).contains(c) <==> s.contains(c) || c == x {
    if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(s.push(x)[i] == c); }
    if c == x { assert(s.push(x)[s.len() as int] == c); }
}
pub broadcast proof fn add_contains<T>(a: Seq<T>, b: Seq<T>, c: T) ensures #[trigger] (a + b).contains(c) <==> a.contains(c) || b.contains(c) {
    if a.contains(c) { let i = choose|i: int| 0 <= i < a.len() && a[i] == c; assert((a + b)[i] == c); }
    if b.contains(c) { let i = choose|i: int| 0 <= i < b.len() && b[i] == c; assert((a + b)[a.len() + i] == c); }
    if (a + b).contains(c) { let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == c; if i < a.len() { assert(a[i] == c); } else { assert(b[i - a.len()] == c); } }
}
pub broadcast proof fn empty_contains<T>(c: T) ensures !(#[trigger] Seq::<T>::empty().contains(c)) { }
pub open spec fn is_opt<T>(a: Option<&T>, b: Option<T>) -> bool { match a { Some(x) => b == Some(*x), None => b is None } }
pub trait Named { spec fn nm(&self) -> Seq<char>; }
impl<'a, T: Named> Named for &'a T { open spec fn nm(&self) -> Seq<char> { (**self).nm() } }
pub open spec fn named_in<T: Named>(s: Seq<T>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).nm() == n }
pub open spec fn first<T: Named>(s: Seq<T>, n: Seq<char>) -> Option<T> decreases s.len() { if s.len() == 0 { None } else if s[0].nm() == n { Some(s[0]) } else { first(s.skip(1), n) } }
pub broadcast proof fn first_has<T: Named>(s: Seq<T>, n: Seq<char>)
    ensures #![trigger first(s, n)] #![trigger named_in(s, n)] first(s, n) is Some <==> named_in(s, n), first(s, n) is Some ==> s.contains(first(s, n)->0) && first(s, n)->0.nm() == n
    decreases s.len()
{
    if s.len() > 0 {
        if s[0].nm() == n { assert(s.contains(s[0])); } else {
            first_has(s.skip(1), n);
            if named_in(s, n) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).nm() == n; assert(s.skip(1)[i - 1] == s[i]); }
            if named_in(s.skip(1), n) { let i = choose|i: int| 0 <= i < s.skip(1).len() && (#[trigger] s.skip(1)[i]).nm() == n; assert(s.skip(1)[i] == s[i + 1]); 
                let x = first(s, n)->0; let j = choose|j: int| 0 <= j < s.skip(1).len() && s.skip(1)[j] == x; assert(s[j + 1] == x); }
        }
    }
}
pub broadcast proof fn idx_contains<T>(s: Seq<T>, i: int) requires 0 <= i < s.len() ensures s.contains(#[trigger] s[i]) { }
// an iterator yields at most usize::MAX items (memory bound)
pub broadcast axiom fn it_len<'a, T>(x: It<'a, T>) ensures #[trigger] x@.len() <= usize::MAX;
pub broadcast axiom fn itv_len<T>(x: ItV<T>) ensures #[trigger] x@.len() <= usize::MAX;
pub broadcast group len_lemmas { it_len, itv_len }
pub broadcast group base_lemmas { push_contains, add_contains, empty_contains, vec_io_view, first_has, idx_contains }
}
pub use basemod::*;
