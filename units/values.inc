// Input values: what the accessor of the traits shows of them. `veq`: equality of values as defined by
// bluejay_core::ValueReference's PartialEq (assumed: object fields in any order, otherwise structural).
#[verifier::external_body]
pub struct ObjV<const C: bool> { x: u8 }
//@item src=bluejay-core/src/value.rs name=ValueReference prefix="#[verifier::reject_recursive_types(CONST)]" subst="< 'a , const CONST : bool , V : Value < CONST > > ==> < 'a , const CONST : bool >;;V :: Variable ==> Variable;;V :: List ==> List < Value < CONST > >;;V :: Object ==> ObjV < CONST >"
impl<'a, const C: bool> Copy for ValueReference<'a, C> {}
impl<'a, const C: bool> Clone for ValueReference<'a, C> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
// generated by enum_as_inner
impl<'a, const C: bool> ValueReference<'a, C> { #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == (self is Null) { unimplemented!() } }
impl<const C: bool> Value<C> {
    pub uninterp spec fn r<'a>(&'a self) -> ValueReference<'a, C>;
    #[verifier::external_body] pub fn as_ref(&self) -> (r: ValueReference<'_, C>) ensures r == self.r() { unimplemented!() }
}
pub uninterp spec fn vr_eq<'a, const C: bool>(a: ValueReference<'a, C>, b: ValueReference<'a, C>) -> bool;
pub open spec fn veq<const C: bool>(a: Value<C>, b: Value<C>) -> bool { vr_eq(a.r(), b.r()) }
impl<'a, const C: bool> vstd::std_specs::cmp::PartialEqSpecImpl for ValueReference<'a, C> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { vr_eq(*self, *o) } }
impl<'a, const C: bool> PartialEq for ValueReference<'a, C> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
// object values: keys and values in order
#[verifier::external_body]
pub struct ObjKey { x: u8 }
impl ObjKey { pub uninterp spec fn s_(&self) -> Seq<char>; #[verifier::external_body] pub fn as_ref(&self) -> (r: &str) ensures r@ == self.s_() { unimplemented!() } }
impl<const C: bool> ObjV<C> {
    pub uninterp spec fn e(&self) -> Seq<(&ObjKey, &Value<C>)>;
    #[verifier::external_body] pub fn it(&self) -> (r: ItV<(&ObjKey, &Value<C>)>) ensures r@ == self.e() { unimplemented!() }
}
// values are finite trees (assumed)
pub mod valmod { use super::*;
pub uninterp spec fn vdepth<const C: bool>(v: Value<C>) -> nat;
pub broadcast axiom fn vdepth_list<const C: bool>(v: Value<C>, i: int) requires v.r() is List, 0 <= i < v.r()->List_0@.len() ensures vdepth(#[trigger] v.r()->List_0@[i]) < vdepth(v);
pub broadcast axiom fn vdepth_obj<const C: bool>(v: Value<C>, i: int) requires v.r() is Object, 0 <= i < v.r()->Object_0.e().len() ensures vdepth(*(#[trigger] v.r()->Object_0.e()[i]).1) < vdepth(v);
// a variable of that name occurs in the value
pub open spec fn vin(v: Value<false>, n: Seq<char>) -> bool decreases vdepth(v) via vin_dec {
    match v.r() { ValueReference::Variable(x) => x.s_name() == n, ValueReference::List(l) => exists|i: int| #![trigger l@[i]] 0 <= i < l@.len() && vin(l@[i], n),
        ValueReference::Object(o) => exists|i: int| #![trigger o.e()[i]] 0 <= i < o.e().len() && vin(*o.e()[i].1, n), _ => false }
}
#[via_fn] proof fn vin_dec(v: Value<false>, n: Seq<char>) { broadcast use {vdepth_list, vdepth_obj}; }
// the value of an entry: of a list, or of an object
pub trait HasVal<const C: bool> { spec fn hv(&self) -> Value<C>; }
impl<const C: bool> HasVal<C> for Value<C> { open spec fn hv(&self) -> Value<C> { *self } }
impl<'a, const C: bool> HasVal<C> for (&'a ObjKey, &'a Value<C>) { open spec fn hv(&self) -> Value<C> { *self.1 } }
}
pub use valmod::*;
