pub mod stdmod {
use super::*;
// ---------------------------------------------------------------------------------------------------
// Collections of std::collections, with the contracts their documentation gives (assumed). Keys are compared
// through their view; iteration visits every entry once, in some order.
// ---------------------------------------------------------------------------------------------------
pub open spec fn covers<K: View, V>(s: Seq<(K, V)>, m: Map<K::V, V>) -> bool {
    (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains_key(s[i].0@) && m[s[i].0@] == s[i].1)
    && (forall|k: K::V| #![trigger m.contains_key(k)] m.contains_key(k) ==> exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0@ == k)
    && (forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].0@ != s[j].0@)
}
pub open spec fn scovers<K: View>(s: Seq<K>, m: Set<K::V>) -> bool {
    (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains(s[i]@))
    && (forall|k: K::V| #![trigger m.contains(k)] m.contains(k) ==> exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i]@ == k)
    && (forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i]@ != s[j]@)
}
pub uninterp spec fn dflt<V>() -> V;
pub broadcast axiom fn dflt_vec<T>() ensures #[trigger] dflt::<Vec<T>>()@ == Seq::<T>::empty();

#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { x: Vec<(K, V)> }
impl<K: View, V> View for HashMap<K, V> { type V = Map<K::V, V>; uninterp spec fn view(&self) -> Map<K::V, V>; }
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HEnt<'m, K, V> { pub m: &'m mut HashMap<K, V>, pub k: K }
pub broadcast axiom fn dflt_hashmap<K: View, V>() ensures #[trigger] dflt::<HashMap<K, V>>()@ == Map::<K::V, V>::empty();
impl<K: View, V> HashMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v), r == (if old(self)@.contains_key(k@) { Some(old(self)@[k@]) } else { None }) { unimplemented!() }
    pub fn __ins(&mut self, e: (K, V)) ensures final(self)@ == old(self)@.insert(e.0@, e.1) { self.insert(e.0, e.1); }
    #[verifier::external_body] pub fn contains_key<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body] pub fn get<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) } { unimplemented!() }
    #[verifier::external_body] pub fn remove<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k@), r == (if old(self)@.contains_key(k@) { Some(old(self)@[k@]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (forall|k: K::V| !(#[trigger] self@.contains_key(k))) { unimplemented!() }
    #[verifier::external_body] pub fn __entry(&mut self, k: K) -> (r: &mut V) ensures *r == (if old(self)@.contains_key(k@) { old(self)@[k@] } else { dflt() }), final(self)@ == old(self)@.insert(k@, *final(r)) { unimplemented!() }
    pub fn entry<'m>(&'m mut self, k: K) -> (r: HEnt<'m, K, V>) ensures *r.m == *old(self), *final(r.m) == *final(self), r.k == k { HEnt { m: self, k } }
    #[verifier::external_body] pub fn it(&self) -> (r: ItV<(&K, &V)>) ensures kcovers(r@, self@) { unimplemented!() }
    #[verifier::external_body] pub fn into_it(self) -> (r: ItV<(K, V)>) ensures covers(r@, self@) { unimplemented!() }
    #[verifier::external_body] pub fn values(&self) -> (r: ItV<&V>) ensures vcovers(r@, self@) { unimplemented!() }
    #[verifier::external_body] pub fn into_values(self) -> (r: ItV<V>) ensures exists|s: Seq<(K, V)>| covers(s, self@) && r@ == #[trigger] vals(s), (r@.len() > 0) <==> exists|k: K::V| #[trigger] self@.contains_key(k), (r@.len() > 0) <==> self@ != Map::<K::V, V>::empty() { unimplemented!() }
}
impl<'m, K: View, V> HEnt<'m, K, V> {
    pub fn or_default(self) -> (r: &'m mut V) ensures *r == (if (*old(self.m))@.contains_key(self.k@) { (*old(self.m))@[self.k@] } else { dflt() }), (*final(self.m))@ == (*old(self.m))@.insert(self.k@, *final(r)) { self.m.__entry(self.k) }
}

#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { x: Vec<(K, V)> }
impl<K: View, V> View for BTreeMap<K, V> { type V = Map<K::V, V>; uninterp spec fn view(&self) -> Map<K::V, V>; }
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct BEnt<'m, K, V> { pub m: &'m mut BTreeMap<K, V>, pub k: K }
pub broadcast axiom fn dflt_btreemap<K: View, V>() ensures #[trigger] dflt::<BTreeMap<K, V>>()@ == Map::<K::V, V>::empty();
impl<K: View, V> BTreeMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v), r == (if old(self)@.contains_key(k@) { Some(old(self)@[k@]) } else { None }) { unimplemented!() }
    pub fn __ins(&mut self, e: (K, V)) ensures final(self)@ == old(self)@.insert(e.0@, e.1) { self.insert(e.0, e.1); }
    #[verifier::external_body] pub fn contains_key<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body] pub fn get<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) } { unimplemented!() }
    #[verifier::external_body] pub fn remove<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k@), r == (if old(self)@.contains_key(k@) { Some(old(self)@[k@]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (forall|k: K::V| !(#[trigger] self@.contains_key(k))) { unimplemented!() }
    #[verifier::external_body] pub fn __entry(&mut self, k: K) -> (r: &mut V) ensures *r == (if old(self)@.contains_key(k@) { old(self)@[k@] } else { dflt() }), final(self)@ == old(self)@.insert(k@, *final(r)) { unimplemented!() }
    pub fn entry_of<'m>(&'m mut self, k: K) -> (r: Entry<'m, K, V>) ensures match r { Entry::Vacant(e) => !old(self)@.contains_key(k@) && *e.m == *old(self) && *final(e.m) == *final(self) && e.k == k, Entry::Occupied(e) => old(self)@.contains_key(k@) && *e.m == *old(self) && *final(e.m) == *final(self) && e.k == k } { if self.contains_key(&k) { Entry::Occupied(OEnt { m: self, k }) } else { Entry::Vacant(VEnt { m: self, k }) } }
    pub fn entry<'m>(&'m mut self, k: K) -> (r: BEnt<'m, K, V>) ensures *r.m == *old(self), *final(r.m) == *final(self), r.k == k { BEnt { m: self, k } }
    #[verifier::external_body] pub fn it(&self) -> (r: ItV<(&K, &V)>) ensures kcovers(r@, self@) { unimplemented!() }
    #[verifier::external_body] pub fn into_it(self) -> (r: ItV<(K, V)>) ensures covers(r@, self@) { unimplemented!() }
    #[verifier::external_body] pub fn values(&self) -> (r: ItV<&V>) ensures vcovers(r@, self@) { unimplemented!() }
    #[verifier::external_body] pub fn into_values(self) -> (r: ItV<V>) ensures exists|s: Seq<(K, V)>| covers(s, self@) && r@ == #[trigger] vals(s), (r@.len() > 0) <==> exists|k: K::V| #[trigger] self@.contains_key(k), (r@.len() > 0) <==> self@ != Map::<K::V, V>::empty() { unimplemented!() }
}
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct OEnt<'m, K, V> { pub m: &'m mut BTreeMap<K, V>, pub k: K }
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct VEnt<'m, K, V> { pub m: &'m mut BTreeMap<K, V>, pub k: K }
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub enum Entry<'m, K, V> { Vacant(VEnt<'m, K, V>), Occupied(OEnt<'m, K, V>) }
impl<'m, K: View, V> VEnt<'m, K, V> { pub fn insert(self, v: V) ensures (*final(self.m))@ == (*old(self.m))@.insert(self.k@, v) { self.m.insert(self.k, v); } }
impl<'m, K: View, V> OEnt<'m, K, V> { pub fn get(&self) -> (r: &V) requires (*self.m)@.contains_key(self.k@) ensures *r == (*old(self.m))@[self.k@] { match self.m.get(&self.k) { Some(x) => x, None => __runtime_unreachable() } } }
impl<'m, K: View, V> BEnt<'m, K, V> {
    #[verifier::external_body] pub fn or_insert_(self, v: V) -> (r: &'m mut V) ensures *r == (if (*old(self.m))@.contains_key(self.k@) { (*old(self.m))@[self.k@] } else { v }), (*final(self.m))@ == (*old(self.m))@.insert(self.k@, *final(r)) { unimplemented!() }
    pub fn or_default(self) -> (r: &'m mut V) ensures *r == (if (*old(self.m))@.contains_key(self.k@) { (*old(self.m))@[self.k@] } else { dflt() }), (*final(self.m))@ == (*old(self.m))@.insert(self.k@, *final(r)) { self.m.__entry(self.k) }
}

#[verifier::external_body] #[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { x: Vec<K> }
impl<K: View> View for HashSet<K> { type V = Set<K::V>; uninterp spec fn view(&self) -> Set<K::V>; }
pub broadcast axiom fn dflt_hashset<K: View>() ensures #[trigger] dflt::<HashSet<K>>()@ == Set::<K::V>::empty();
impl<K: View> Clone for HashSet<K> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl<K: View> HashSet<K> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K::V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@), r == !old(self)@.contains(k@) { unimplemented!() }
    pub fn __ins(&mut self, k: K) ensures final(self)@ == old(self)@.insert(k@) { self.insert(k); }
    #[verifier::external_body] pub fn remove<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: bool) ensures final(self)@ == old(self)@.remove(k@), r == old(self)@.contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn contains<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn from<const N: usize>(a: [K; N]) -> (r: Self) ensures forall|c: K::V| #[trigger] r@.contains(c) <==> exists|i: int| 0 <= i < N && (#[trigger] a@[i])@ == c { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (forall|k: K::V| !(#[trigger] self@.contains(k))) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_disjoint(&self, o: &Self) -> (r: bool) ensures r == (forall|k: K::V| !(#[trigger] self@.contains(k) && o@.contains(k))) { unimplemented!() }
    #[verifier::external_body] pub fn intersection<'x>(&'x self, o: &'x Self) -> (r: ItV<&'x K>) ensures forall|k: K::V| #![trigger self@.contains(k)] #![trigger o@.contains(k)] (self@.contains(k) && o@.contains(k)) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == k, forall|i: int| 0 <= i < r@.len() ==> self@.contains((#[trigger] r@[i])@) && o@.contains(r@[i]@) { unimplemented!() }
    #[verifier::external_body] pub fn it(&self) -> (r: ItV<&K>) ensures scovers(r@, self@) { unimplemented!() }
    #[verifier::external_body] pub fn into_it(self) -> (r: ItV<K>) ensures scovers(r@, self@) { unimplemented!() }
}

#[verifier::external_body] #[verifier::reject_recursive_types(K)]
pub struct BTreeSet<K> { x: Vec<K> }
impl<K: View> View for BTreeSet<K> { type V = Set<K::V>; uninterp spec fn view(&self) -> Set<K::V>; }
pub broadcast axiom fn dflt_btreeset<K: View>() ensures #[trigger] dflt::<BTreeSet<K>>()@ == Set::<K::V>::empty();
impl<K: View> Clone for BTreeSet<K> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl<K: View> BTreeSet<K> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K::V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@), r == !old(self)@.contains(k@) { unimplemented!() }
    pub fn __ins(&mut self, k: K) ensures final(self)@ == old(self)@.insert(k@) { self.insert(k); }
    #[verifier::external_body] pub fn remove<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: bool) ensures final(self)@ == old(self)@.remove(k@), r == old(self)@.contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn contains<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn from<const N: usize>(a: [K; N]) -> (r: Self) ensures forall|c: K::V| #[trigger] r@.contains(c) <==> exists|i: int| 0 <= i < N && (#[trigger] a@[i])@ == c { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (forall|k: K::V| !(#[trigger] self@.contains(k))) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_disjoint(&self, o: &Self) -> (r: bool) ensures r == (forall|k: K::V| !(#[trigger] self@.contains(k) && o@.contains(k))) { unimplemented!() }
    #[verifier::external_body] pub fn intersection<'x>(&'x self, o: &'x Self) -> (r: ItV<&'x K>) ensures forall|k: K::V| #![trigger self@.contains(k)] #![trigger o@.contains(k)] (self@.contains(k) && o@.contains(k)) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == k, forall|i: int| 0 <= i < r@.len() ==> self@.contains((#[trigger] r@[i])@) && o@.contains(r@[i]@) { unimplemented!() }
    #[verifier::external_body] pub fn it(&self) -> (r: ItV<&K>) ensures scovers(r@, self@) { unimplemented!() }
    #[verifier::external_body] pub fn into_it(self) -> (r: ItV<K>) ensures scovers(r@, self@) { unimplemented!() }
}

// elements identified by their id (assumed: the id identifies the element)
pub struct Indexed<'a, T>(pub &'a T);
impl<'a, T> View for Indexed<'a, T> { type V = T; open spec fn view(&self) -> T { *self.0 } }
impl<'a, K: View> IntoIt for &'a HashSet<K> { type O = ItV<&'a K>; open spec fn io(self) -> ItV<&'a K> { hset_io(self) } #[verifier::external_body] fn into_it(self) -> (r: ItV<&'a K>) { unimplemented!() } }
pub uninterp spec fn hset_io<'a, K: View>(v: &'a HashSet<K>) -> ItV<&'a K>;
pub broadcast axiom fn hset_io_view<'a, K: View>(v: &'a HashSet<K>) ensures scovers(#[trigger] hset_io(v)@, v@);
pub enum Either<A, B> { Left(A), Right(B) }
impl<T> IntoIt for Either<ItV<T>, ItV<T>> { type O = ItV<T>; open spec fn io(self) -> ItV<T> { match self { Either::Left(x) => x, Either::Right(x) => x } } fn into_it(self) -> (r: ItV<T>) { match self { Either::Left(x) => x, Either::Right(x) => x } } }
#[verifier::external_body] pub fn once<T>(x: T) -> (r: ItV<T>) ensures r@ == seq![x], r@[0] == x, r@.contains(x) { unimplemented!() }
pub proof fn scov<K: View>(s: Seq<K>, m: Set<K::V>, k: K::V) requires scovers(s, m), m.contains(k) ensures exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i]@ == k { }
pub proof fn kcov<'a, K: View, V>(s: Seq<(&'a K, &'a V)>, m: Map<K::V, V>, k: K::V) requires kcovers(s, m), m.contains_key(k) ensures exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0@ == k && *s[i].1 == m[k] { }
pub proof fn mcov<K: View, V>(s: Seq<(K, V)>, m: Map<K::V, V>, k: K::V) requires covers(s, m), m.contains_key(k) ensures exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0@ == k && s[i].1 == m[k] { }
pub open spec fn vcovers<'a, K, V>(s: Seq<&'a V>, m: Map<K, V>) -> bool {
    (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> exists|k: K| #[trigger] m.contains_key(k) && m[k] == *s[i]) && (forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *#[trigger] s[i] == m[k])
}
pub open spec fn vals<K, V>(s: Seq<(K, V)>) -> Seq<V> { s.map_values(|e: (K, V)| e.1) }
pub open spec fn kcovers<'a, K: View, V>(s: Seq<(&'a K, &'a V)>, m: Map<K::V, V>) -> bool {
    (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains_key(s[i].0@) && m[s[i].0@] == *s[i].1)
    && (forall|k: K::V| #![trigger m.contains_key(k)] m.contains_key(k) ==> exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0@ == k)
    && (forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].0@ != s[j].0@)
}
// slices and vectors by reference
pub trait VecIt<T> { fn it(&self) -> (r: It<'_, T>) ensures r@ == self.vv(); spec fn vv(&self) -> Seq<T>; }
impl<T> VecIt<T> for Vec<T> { open spec fn vv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn it(&self) -> (r: It<'_, T>) { unimplemented!() } }
impl<T> IntoIt for Option<T> { type O = ItV<T>; open spec fn io(self) -> ItV<T> { opt_io(self) } #[verifier::external_body] fn into_it(self) -> (r: ItV<T>) { unimplemented!() } }
pub uninterp spec fn opt_io<T>(v: Option<T>) -> ItV<T>;
pub broadcast axiom fn opt_io_view<T>(v: Option<T>) ensures #[trigger] opt_io(v)@ == (match v { Some(x) => seq![x], None => Seq::<T>::empty() });
// number of elements of `a` against `b`: something was added if and only if `c`
pub open spec fn grew<T>(a: Seq<T>, b: Seq<T>, c: bool) -> bool { b.len() >= a.len() && ((b.len() > a.len()) <==> c) }
// how often a name occurs, and an index from names to the elements carrying them
pub open spec fn cnt<T: Named>(s: Seq<T>, n: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { cnt(s.drop_last(), n) + (if s.last().nm() == n { 1nat } else { 0nat }) } }
pub open spec fn idx<'a, T: Named>(m: Map<Seq<char>, Vec<&'a T>>, s: Seq<T>) -> bool {
    forall|n: Seq<char>| #![trigger m.contains_key(n)] #![trigger cnt(s, n)] (m.contains_key(n) <==> cnt(s, n) > 0) && (m.contains_key(n) ==> m[n]@.len() == cnt(s, n))
}
pub broadcast proof fn cnt_push<T: Named>(s: Seq<T>, x: T, n: Seq<char>) ensures #[trigger] cnt(s.push(x), n) == cnt(s, n) + (if x.nm() == n { 1nat } else { 0nat }) { assert(s.push(x).drop_last() =~= s); }
pub proof fn cnt_pos<T: Named>(s: Seq<T>, n: Seq<char>) ensures cnt(s, n) > 0 <==> named_in(s, n) decreases s.len() {
    if s.len() > 0 { let d = s.drop_last(); cnt_pos(d, n);
        if named_in(d, n) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).nm() == n; assert(s[i].nm() == n); }
        if s.last().nm() == n { assert(s[s.len() - 1].nm() == n); }
        if named_in(s, n) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).nm() == n; if i < d.len() { assert(d[i].nm() == n); } }
    }
}
pub broadcast proof fn named_push<T: Named>(s: Seq<T>, x: T, n: Seq<char>) ensures #[trigger] named_in(s.push(x), n) <==> named_in(s, n) || x.nm() == n { cnt_pos(s, n); cnt_pos(s.push(x), n); cnt_push(s, x, n); }
pub open spec fn dupn<T: Named>(s: Seq<T>, n: Seq<char>) -> bool { exists|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && s[i].nm() == n && s[j].nm() == n }
pub broadcast proof fn cnt_dupn<T: Named>(s: Seq<T>, n: Seq<char>) ensures #![trigger cnt(s, n)] #![trigger dupn(s, n)] cnt(s, n) > 1 <==> dupn(s, n) decreases s.len() {
    if s.len() > 0 { let d = s.drop_last(); cnt_dupn(d, n); cnt_pos(d, n); let l = s.len() - 1;
        if dupn(d, n) { let (i, j) = choose|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() && d[i].nm() == n && d[j].nm() == n; assert(s[i].nm() == n && s[j].nm() == n); }
        if cnt(d, n) > 0 && s.last().nm() == n { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).nm() == n; assert(s[i].nm() == n && s[l].nm() == n); }
        if dupn(s, n) { let (i, j) = choose|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && s[i].nm() == n && s[j].nm() == n; assert(d[i].nm() == n); if j < l { assert(d[j].nm() == n); } }
    }
}
pub broadcast proof fn dup_cnt<T: Named>(s: Seq<T>) ensures #[trigger] dup(s) <==> exists|n: Seq<char>| #[trigger] dupn(s, n) {
    if dup(s) { let (i, j) = choose|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && s[i].nm() == s[j].nm(); assert(dupn(s, s[i].nm())); }
    if exists|n: Seq<char>| #[trigger] dupn(s, n) { let n = choose|n: Seq<char>| #[trigger] dupn(s, n); let (i, j) = choose|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && s[i].nm() == n && s[j].nm() == n; assert(s[i].nm() == s[j].nm()); }
}
pub open spec fn haskey<'a, X>(v: Seq<(&'a str, X)>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == n }
pub broadcast proof fn haskey_push<'a, X>(v: Seq<(&'a str, X)>, x: (&'a str, X), n: Seq<char>) ensures #[trigger] haskey(v.push(x), n) <==> haskey(v, n) || x.0@ == n {
    let w = v.push(x);
    if haskey(v, n) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == n; assert(w[i].0@ == n); }
    if x.0@ == n { assert(w[v.len() as int].0@ == n); }
    if haskey(w, n) { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).0@ == n; if i < v.len() { assert(v[i].0@ == n); } }
}
pub broadcast proof fn two_members<A>(s: Set<A>) ensures #[trigger] s.len() > 1 <==> exists|a: A, b: A| a != b && #[trigger] s.contains(a) && #[trigger] s.contains(b) {
    if s.len() > 1 { let a = s.choose(); let t = s.remove(a); assert(t.len() > 0); let b = t.choose(); assert(s.contains(a) && s.contains(b) && a != b); }
    if exists|a: A, b: A| a != b && #[trigger] s.contains(a) && #[trigger] s.contains(b) {
        let (a, b) = choose|a: A, b: A| a != b && #[trigger] s.contains(a) && #[trigger] s.contains(b);
        let t = s.remove(a); assert(t.contains(b)); assert(t.remove(b).len() == t.len() - 1);
    }
}
pub open spec fn dup<T: Named>(s: Seq<T>) -> bool { exists|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && s[i].nm() == s[j].nm() }
pub broadcast group std_lemmas { dflt_vec, dflt_hashmap, dflt_btreemap, dflt_hashset, dflt_btreeset, opt_io_view, hset_io_view, cnt_push, cnt_dupn, dup_cnt }
}
pub use stdmod::*;
