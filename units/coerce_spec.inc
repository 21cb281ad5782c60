// Input coercion: what the GraphQL specification accepts, and where the offending parts of a value are.
pub enum PE { K(Seq<char>), I(int) }
#[verifier::external_body]
pub struct VPath<'a> { x: &'a u8 }
impl<'a> View for VPath<'a> { type V = Seq<PE>; uninterp spec fn view(&self) -> Seq<PE>; }
pub trait PathElem { spec fn pe(&self) -> PE; }
impl<'b> PathElem for &'b str { open spec fn pe(&self) -> PE { PE::K(self@) } }
impl PathElem for usize { open spec fn pe(&self) -> PE { PE::I(*self as int) } }
impl<'a> VPath<'a> { #[verifier::external_body] pub fn push<T: PathElem>(&self, e: T) -> (r: VPath<'a>) ensures r@ == self@.push(e.pe()) { unimplemented!() } }
impl<'a> Clone for VPath<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl<'a> Default for VPath<'a> { #[verifier::external_body] fn default() -> (r: Self) ensures r@ == Seq::<PE>::empty() { unimplemented!() } }
//@item src=bluejay-validator/src/value/input_coercion/error.rs name=Error prefix="#[verifier::reject_recursive_types(CONST)] #[allow(inconsistent_fields)]" subst="Error ==> CoercionError;;< 'a , const CONST : bool , V : Value < CONST > > ==> < 'a , const CONST : bool >;;& 'a V ==> & 'a Value < CONST >;;< V :: Object as ObjectValue < CONST > > :: Key ==> ObjKey;;Path < 'a > ==> VPath < 'a >;;Cow < 'static , str > ==> CowStr"
#[verifier::external_body] pub struct CowStr { x: u8 }
impl ScalarTypeDefinition {
    // the user's rule for a custom scalar (assumed deterministic)
    pub uninterp spec fn s_accepts<const C: bool>(&self, v: Value<C>) -> bool;
    #[verifier::external_body] pub fn coerce_input<const C: bool>(&self, v: &Value<C>) -> (r: Result<(), CowStr>) ensures r is Ok <==> self.s_accepts(*v) { unimplemented!() }
}
// whether the kind of value has no enum notation (JSON), so that strings stand for enum values
pub uninterp spec fn str_enum<const C: bool>(v: Value<C>) -> bool;
impl<const C: bool> Value<C> { #[verifier::external_body] pub fn can_coerce_string_value_to_enum_(&self) -> (r: bool) ensures r == str_enum(*self) { unimplemented!() } }
pub mod coercespec { use super::*;
// a resolved type has the structure of the reference it is resolved from
pub broadcast axiom fn input_ref_v(t: InputType, s: SchemaDefinition) ensures (#[trigger] t.s_ref(s)).v() == t.v(), t.s_ref(s).s_base(s) == t.s_base(s);
pub open spec fn epath<const C: bool>(e: CoercionError<'_, C>) -> Seq<PE> { match e {
    CoercionError::NullValueForRequiredType { path, .. } => path@, CoercionError::NoImplicitConversion { path, .. } => path@, CoercionError::NoEnumMemberWithName { path, .. } => path@,
    CoercionError::NoValueForRequiredFields { path, .. } => path@, CoercionError::NonUniqueFieldNames { path, .. } => path@, CoercionError::NoInputFieldWithName { path, .. } => path@,
    CoercionError::CustomScalarInvalidValue { path, .. } => path@, CoercionError::OneOfInputNullValues { path, .. } => path@, CoercionError::OneOfInputNotSingleNonNullValue { path, .. } => path@ } }
// an error is reported at that path
pub open spec fn reports<const C: bool>(s: Seq<CoercionError<'_, C>>, q: Seq<PE>) -> bool { exists|i: int| 0 <= i < s.len() && epath(#[trigger] s[i]) == q }
pub open spec fn says<'a, const C: bool>(r: Result<(), Vec<CoercionError<'a, C>>>) -> Seq<CoercionError<'a, C>> { match r { Ok(_) => seq![], Err(v) => v@ } }
// the entries of an object with that name
pub open spec fn ents<'a, const C: bool>(e: Seq<(&'a ObjKey, &'a Value<C>)>, n: Seq<char>) -> Seq<(&'a ObjKey, &'a Value<C>)> decreases e.len() { if e.len() == 0 { seq![] } else { let d = ents(e.drop_last(), n); if e.last().0.s_() == n { d.push(e.last()) } else { d } } }
pub proof fn ents_mem<'a, const C: bool>(e: Seq<(&'a ObjKey, &'a Value<C>)>, n: Seq<char>) ensures forall|i: int| 0 <= i < ents(e, n).len() ==> (#[trigger] ents(e, n)[i]).0.s_() == n && e.contains(ents(e, n)[i]) decreases e.len() {
    if e.len() > 0 { let d = e.drop_last(); ents_mem(d, n); assert forall|i: int| 0 <= i < ents(e, n).len() implies (#[trigger] ents(e, n)[i]).0.s_() == n && e.contains(ents(e, n)[i]) by {
        if i < ents(d, n).len() { assert(ents(e, n)[i] == ents(d, n)[i]); let j = choose|j: int| 0 <= j < d.len() && d[j] == ents(d, n)[i]; assert(e[j] == ents(e, n)[i]); } else { assert(e[e.len() - 1] == ents(e, n)[i]); } } }
}
pub open spec fn scalar_ok<'a, const C: bool>(k: BuiltinScalarDefinition, v: ValueReference<'a, C>) -> bool { match k {
    BuiltinScalarDefinition::Boolean => v is Boolean, BuiltinScalarDefinition::Float => v is Float || v is Integer, BuiltinScalarDefinition::Int => v is Integer,
    BuiltinScalarDefinition::ID => v is Integer || v is String, BuiltinScalarDefinition::String => v is String } }
pub open spec fn enum_ok<const C: bool>(e: EnumTypeDefinition, v: Value<C>) -> bool { match v.r() { ValueReference::Enum(n) => named_in(e.s_enum_value_definitions()@, n@), ValueReference::String(n) => str_enum(v) && named_in(e.s_enum_value_definitions()@, n@), _ => false } }
pub open spec fn one_of(o: InputObjectTypeDefinition) -> bool { match o.o_directives() { Some(l) => named_in(l@, "oneOf"@), None => false } }
pub open spec fn nulls<'a, const C: bool>(e: Seq<(&'a ObjKey, &'a Value<C>)>, null: bool) -> nat decreases e.len() { if e.len() == 0 { 0 } else { nulls(e.drop_last(), null) + (if (e.last().1.r() is Null) == null { 1nat } else { 0nat }) } }
pub open spec fn one_of_bad<'a, const C: bool>(o: InputObjectTypeDefinition, e: Seq<(&'a ObjKey, &'a Value<C>)>) -> bool { one_of(o) && (nulls(e, true) > 0 || nulls(e, false) != 1) }
pub open spec fn some_dup<'a, const C: bool>(e: Seq<(&'a ObjKey, &'a Value<C>)>) -> bool { exists|n: Seq<char>| #[trigger] ents(e, n).len() > 1 }
pub open spec fn missing<'a, const C: bool>(d: InputValueDefinition, e: Seq<(&'a ObjKey, &'a Value<C>)>) -> bool { ents(e, d.s_name()).len() == 0 && d.s_default_value() is None && ty_required(d.s_type_().v()) }
pub open spec fn some_missing<'a, const C: bool>(ds: Seq<InputValueDefinition>, e: Seq<(&'a ObjKey, &'a Value<C>)>, k: int) -> bool { exists|i: int| 0 <= i < k && missing(#[trigger] ds[i], e) }
pub open spec fn unknown_at<'a, const C: bool>(ds: Seq<InputValueDefinition>, e: Seq<(&'a ObjKey, &'a Value<C>)>, k: int, p: Seq<PE>, q: Seq<PE>) -> bool { exists|i: int| 0 <= i < k && !named_in(ds, (#[trigger] e[i]).0.s_()) && q == p.push(PE::K(e[i].0.s_())) }
// the part at path q of the value at path p is not acceptable for the type (variables are checked elsewhere)
pub open spec fn bad<const C: bool>(s: SchemaDefinition, t: InputType, v: Value<C>, allow: bool, p: Seq<PE>, q: Seq<PE>) -> bool decreases vdepth(v), ty_depth(t.v()), 5int {
    match v.r() {
        ValueReference::Null => ty_required(t.v()) && q == p,
        ValueReference::Variable(_) => false,
        x => match t.s_ref(s) {
            InputTypeReference::Base(b, _) => bad_base(s, b, v, p, q),
            InputTypeReference::List(i, _) => ty_depth(i.v()) < ty_depth(t.v()) && match x { ValueReference::List(l) => bad_items(s, *i, v, l@.len() as int, p, q), _ => if allow { bad(s, *i, v, true, p, q) } else { q == p } },
        } }
}
pub open spec fn bad_items<const C: bool>(s: SchemaDefinition, t: InputType, v: Value<C>, k: int, p: Seq<PE>, q: Seq<PE>) -> bool decreases vdepth(v), 0nat, 4int {
    v.r() is List && exists|i: int| #![trigger v.r()->List_0@[i]] 0 <= i < k && i < v.r()->List_0@.len() && vdepth(v.r()->List_0@[i]) < vdepth(v) && bad(s, t, v.r()->List_0@[i], false, p.push(PE::I(i)), q)
}
pub open spec fn bad_base<'a, const C: bool>(s: SchemaDefinition, b: BaseInputTypeReference<'a>, v: Value<C>, p: Seq<PE>, q: Seq<PE>) -> bool decreases vdepth(v), 0nat, 4int {
    match b {
        BaseInputTypeReference::BuiltinScalar(k) => !scalar_ok(k, v.r()) && q == p,
        BaseInputTypeReference::CustomScalar(c) => !c.s_accepts(v) && q == p,
        BaseInputTypeReference::Enum(e) => !enum_ok(*e, v) && q == p,
        BaseInputTypeReference::InputObject(o) => match v.r() { ValueReference::Object(x) => bad_obj(s, *o, v, p, q), _ => q == p },
    }
}
pub open spec fn bad_obj<const C: bool>(s: SchemaDefinition, o: InputObjectTypeDefinition, v: Value<C>, p: Seq<PE>, q: Seq<PE>) -> bool decreases vdepth(v), 0nat, 3int {
    v.r() is Object && { let e = v.r()->Object_0.e(); let ds = o.s_input_field_definitions()@;
    (some_dup(e) && q == p) || unknown_at(ds, e, e.len() as int, p, q) || bad_fields(s, ds, v, ds.len() as int, p, q) || (one_of_bad(o, e) && q == p) || (some_missing(ds, e, ds.len() as int) && q == p) }
}
pub open spec fn bad_fields<const C: bool>(s: SchemaDefinition, ds: Seq<InputValueDefinition>, v: Value<C>, k: int, p: Seq<PE>, q: Seq<PE>) -> bool decreases vdepth(v), 0nat, 2int {
    v.r() is Object && exists|i: int| #![trigger ds[i]] 0 <= i < k && i < ds.len() && bad_field(s, ds[i], v, p, q)
}
pub open spec fn bad_field<const C: bool>(s: SchemaDefinition, d: InputValueDefinition, v: Value<C>, p: Seq<PE>, q: Seq<PE>) -> bool decreases vdepth(v), 0nat, 1int {
    v.r() is Object && { let x = ents(v.r()->Object_0.e(), d.s_name()); x.len() > 0 && vdepth(*x[0].1) < vdepth(v) && bad(s, d.s_type_(), *x[0].1, true, p.push(PE::K(d.s_name())), q) }
}
// some part of the value at that path does not fit the type (single values stand for one-element lists)
pub open spec fn unfit<const C: bool>(s: SchemaDefinition, t: InputType, v: Value<C>, p: Seq<PE>) -> bool { exists|q: Seq<PE>| bad(s, t, v, true, p, q) }
pub proof fn unfit_by<'a, const C: bool>(s: SchemaDefinition, t: InputType, v: Value<C>, p: Seq<PE>, r: Result<(), Vec<CoercionError<'a, C>>>)
    requires r is Err ==> r->Err_0@.len() > 0, forall|q: Seq<PE>| #![trigger reports(says(r), q)] #![trigger bad(s, t, v, true, p, q)] reports(says(r), q) <==> bad(s, t, v, true, p, q) ensures unfit(s, t, v, p) <==> r is Err {
    if r is Err { assert(reports(says(r), epath(r->Err_0@[0]))); } else { assert(forall|q: Seq<PE>| !reports(says(r), q)); }
}
// the guards against smaller parts in `bad` and below always hold
pub broadcast proof fn ent_small<'a, const C: bool>(v: Value<C>, n: Seq<char>) requires v.r() is Object, ents(v.r()->Object_0.e(), n).len() > 0 ensures vdepth(*(#[trigger] ents(v.r()->Object_0.e(), n)[0]).1) < vdepth(v) {
    broadcast use vdepth_obj; let e = v.r()->Object_0.e(); ents_mem(e, n); let x = ents(e, n); let j = choose|j: int| 0 <= j < e.len() && e[j] == x[0]; assert(vdepth(*e[j].1) < vdepth(v)); }
pub broadcast proof fn inner_small(t: InputType, s: SchemaDefinition) requires (#[trigger] t.s_ref(s)) is List ensures ty_depth(t.s_ref(s)->List_0.v()) < ty_depth(t.v()) { broadcast use input_ref_v; }
}
pub use coercespec::*;
