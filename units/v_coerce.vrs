// P06: coercing a value to an input type reports exactly the offending parts of the value, at their paths.
#![feature(allocator_api)]
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@include std.inc
//@include core.inc
//@include types.inc
//@include values.inc
//@include typedefs.inc
//@include exec.inc
//@include coerce_spec.inc
//@subst Vec < Error < 'a , CONST , V > > ==> Vec < CoercionError < 'a , CONST > >
//@subst Error :: $x ==> CoercionError :: $x
//@subst Path < 'a > ==> VPath < 'a >
//@method iter/0 ==> $self.it()
//@method not/0 ==> !($self)
//@method first/0 ==> vfirst(&$self)
//@method copied/0 ==> ocopied($self)
//@method unwrap_or_default/0 ==> or_dflt($self)
//@known or_dflt vfirst ocopied
//@rtype it=iter err=opt vfirst=opt ocopied=opt get/1=opt coerce_value=res coerce_value_for_input_type=res coerce_input=res directives=opt default_value=opt
impl<T> List<T> { pub fn it(&self) -> (r: It<'_, T>) ensures r@ == self@ { self.iter() } }
impl<'a, T> It<'a, T> { pub fn it(self) -> (r: Self) ensures r == self { self } }
pub fn vfirst<T>(v: &Vec<T>) -> (r: Option<&T>) ensures is_opt(r, if v@.len() > 0 { Some(v@[0]) } else { None }) { if v.len() > 0 { Some(&v[0]) } else { None } }
impl InputType { #[verifier::external_body] pub fn display_name(&self) -> String { unimplemented!() } }
pub fn or_dflt<T>(o: Option<Vec<T>>) -> (r: Vec<T>) ensures r@ == (match o { Some(x) => x@, None => Seq::<T>::empty() }) { match o { Some(x) => x, None => Vec::new() } }
pub fn ocopied<T: Copy>(o: Option<&T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None }) { match o { Some(x) => Some(*x), None => None } }
pub mod coercelem { use super::*;
pub broadcast proof fn reports_push<'a, const C: bool>(s: Seq<CoercionError<'a, C>>, x: CoercionError<'a, C>, q: Seq<PE>) ensures #[trigger] reports(s.push(x), q) <==> reports(s, q) || epath(x) == q {
    let w = s.push(x);
    if reports(s, q) { let i = choose|i: int| 0 <= i < s.len() && epath(#[trigger] s[i]) == q; assert(epath(w[i]) == q); }
    if epath(x) == q { assert(epath(w[s.len() as int]) == q); }
    if reports(w, q) { let i = choose|i: int| 0 <= i < w.len() && epath(#[trigger] w[i]) == q; if i < s.len() { assert(epath(s[i]) == q); } }
}
pub broadcast proof fn reports_add<'a, const C: bool>(s: Seq<CoercionError<'a, C>>, t: Seq<CoercionError<'a, C>>, q: Seq<PE>) ensures #[trigger] reports(s + t, q) <==> reports(s, q) || reports(t, q) {
    let w = s + t;
    if reports(s, q) { let i = choose|i: int| 0 <= i < s.len() && epath(#[trigger] s[i]) == q; assert(epath(w[i]) == q); }
    if reports(t, q) { let i = choose|i: int| 0 <= i < t.len() && epath(#[trigger] t[i]) == q; assert(epath(w[s.len() + i]) == q); }
    if reports(w, q) { let i = choose|i: int| 0 <= i < w.len() && epath(#[trigger] w[i]) == q; if i < s.len() { assert(epath(s[i]) == q); } else { assert(epath(t[i - s.len()]) == q); } }
}
pub broadcast proof fn reports_none<'a, const C: bool>(q: Seq<PE>) ensures !#[trigger] reports(Seq::<CoercionError<'a, C>>::empty(), q) {}
pub broadcast proof fn none_left<'a, const C: bool>(s: Seq<CoercionError<'a, C>>) requires s.len() == 0 ensures #[trigger] s.len() == 0, s == Seq::<CoercionError<'a, C>>::empty() { assert(s =~= Seq::empty()); }
pub broadcast proof fn tail_of<T>(a: Seq<T>, b: Seq<T>) ensures #[trigger] (a + b).skip(a.len() as int) == b { assert((a + b).skip(a.len() as int) =~= b); }
pub broadcast group rep { none_left, tail_of, reports_push, reports_add, reports_none }
// the index of an object's entries by name
#[verifier::opaque] pub open spec fn idxe<'a, const C: bool>(m: Map<Seq<char>, Vec<(&'a ObjKey, &'a Value<C>)>>, e: Seq<(&'a ObjKey, &'a Value<C>)>) -> bool {
    forall|n: Seq<char>| #![trigger m.contains_key(n)] #![trigger ents(e, n)] (m.contains_key(n) <==> ents(e, n).len() > 0) && (m.contains_key(n) ==> m[n]@ == ents(e, n))
}
pub proof fn idxe_none<'a, const C: bool>(m: Map<Seq<char>, Vec<(&'a ObjKey, &'a Value<C>)>>) requires m == Map::<Seq<char>, Vec<(&'a ObjKey, &'a Value<C>)>>::empty() ensures idxe(m, Seq::<(&'a ObjKey, &'a Value<C>)>::empty()) { reveal(idxe); }
pub proof fn idxe_push<'a, const C: bool>(m: Map<Seq<char>, Vec<(&'a ObjKey, &'a Value<C>)>>, e: Seq<(&'a ObjKey, &'a Value<C>)>, k: int, v: Vec<(&'a ObjKey, &'a Value<C>)>)
    requires 0 < k <= e.len(), idxe(m, e.take(k - 1)), v@ == (if m.contains_key(e[k - 1].0.s_()) { m[e[k - 1].0.s_()]@ } else { Seq::empty() }).push(e[k - 1]) ensures idxe(m.insert(e[k - 1].0.s_(), v), e.take(k)) { reveal(idxe); ents_step(e, k); let n = e[k - 1].0.s_(); assert(m.contains_key(n) <==> ents(e.take(k - 1), n).len() > 0); assert(v@ =~= ents(e.take(k), n)); }
// the entry the index gives for a name
pub proof fn idxe_get<'a, const C: bool>(m: Map<Seq<char>, Vec<(&'a ObjKey, &'a Value<C>)>>, e: Seq<(&'a ObjKey, &'a Value<C>)>) requires idxe(m, e) ensures forall|n: Seq<char>| #![trigger m.contains_key(n)] (m.contains_key(n) <==> ents(e, n).len() > 0) && (m.contains_key(n) ==> m[n]@ == ents(e, n)) { reveal(idxe); }
pub proof fn ents_step<'a, const C: bool>(e: Seq<(&'a ObjKey, &'a Value<C>)>, k: int) requires 0 < k <= e.len() ensures forall|n: Seq<char>| #[trigger] ents(e.take(k), n) == (if e[k - 1].0.s_() == n { ents(e.take(k - 1), n).push(e[k - 1]) } else { ents(e.take(k - 1), n) }) { assert(e.take(k).drop_last() =~= e.take(k - 1)); }
pub proof fn nulls_step<'a, const C: bool>(e: Seq<(&'a ObjKey, &'a Value<C>)>, k: int) requires 0 < k <= e.len() ensures forall|b: bool| #[trigger] nulls(e.take(k), b) == nulls(e.take(k - 1), b) + (if (e[k - 1].1.r() is Null) == b { 1nat } else { 0nat }) { assert(e.take(k).drop_last() =~= e.take(k - 1)); }
pub open spec fn long_upto<'x, 'a, const C: bool>(s: Seq<(&'x &'a str, &'x Vec<(&'a ObjKey, &'a Value<C>)>)>, k: int) -> bool { exists|j: int| 0 <= j < k && (#[trigger] s[j]).1@.len() > 1 }
pub proof fn long_all<'x, 'a, const C: bool>(s: Seq<(&'x &'a str, &'x Vec<(&'a ObjKey, &'a Value<C>)>)>, m: Map<Seq<char>, Vec<(&'a ObjKey, &'a Value<C>)>>, e: Seq<(&'a ObjKey, &'a Value<C>)>)
    requires kcovers(s, m), idxe(m, e) ensures long_upto(s, s.len() as int) <==> some_dup(e) {
    reveal(idxe);
    if long_upto(s, s.len() as int) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).1@.len() > 1; assert(m.contains_key(s[j].0@) && m[s[j].0@] == *s[j].1); assert(ents(e, s[j].0@).len() > 1); }
    if some_dup(e) { let n = choose|n: Seq<char>| #[trigger] ents(e, n).len() > 1; assert(m.contains_key(n)); kcov::<&'a str, Vec<(&'a ObjKey, &'a Value<C>)>>(s, m, n); let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0@ == n; assert(m[s[i].0@] == *s[i].1); }
}
pub proof fn unknown_step<'a, const C: bool>(ds: Seq<InputValueDefinition>, e: Seq<(&'a ObjKey, &'a Value<C>)>, k: int, p: Seq<PE>) requires 0 < k <= e.len() ensures forall|q: Seq<PE>| #[trigger] unknown_at(ds, e, k, p, q) <==> unknown_at(ds, e, k - 1, p, q) || (!named_in(ds, e[k - 1].0.s_()) && q == p.push(PE::K(e[k - 1].0.s_()))) {}
pub proof fn fields_step<const C: bool>(s: SchemaDefinition, ds: Seq<InputValueDefinition>, v: Value<C>, k: int, p: Seq<PE>) requires 0 < k <= ds.len() ensures forall|q: Seq<PE>| #[trigger] bad_fields(s, ds, v, k, p, q) <==> bad_fields(s, ds, v, k - 1, p, q) || bad_field(s, ds[k - 1], v, p, q) {}
pub proof fn field_by<const C: bool>(s: SchemaDefinition, d: InputValueDefinition, v: Value<C>, p: Seq<PE>, q: Seq<PE>) requires v.r() is Object ensures bad_field(s, d, v, p, q) == (ents(v.r()->Object_0.e(), d.s_name()).len() > 0 && bad(s, d.s_type_(), *ents(v.r()->Object_0.e(), d.s_name())[0].1, true, p.push(PE::K(d.s_name())), q)) { broadcast use ent_small; }
pub proof fn none_yet<const C: bool>(s: SchemaDefinition, ds: Seq<InputValueDefinition>, v: Value<C>, p: Seq<PE>) requires v.r() is Object ensures !some_missing(ds, v.r()->Object_0.e(), 0), forall|q: Seq<PE>| #![trigger unknown_at(ds, v.r()->Object_0.e(), 0, p, q)] #![trigger bad_fields(s, ds, v, 0, p, q)] !unknown_at(ds, v.r()->Object_0.e(), 0, p, q) && !bad_fields(s, ds, v, 0, p, q) {}
pub proof fn missing_step<'a, const C: bool>(ds: Seq<InputValueDefinition>, e: Seq<(&'a ObjKey, &'a Value<C>)>, k: int) requires 0 < k <= ds.len() ensures some_missing(ds, e, k) == (some_missing(ds, e, k - 1) || missing(ds[k - 1], e)) { if some_missing(ds, e, k - 1) { let i = choose|i: int| 0 <= i < k - 1 && missing(#[trigger] ds[i], e); assert(missing(ds[i], e)); } }
pub proof fn obj_by<const C: bool>(s: SchemaDefinition, o: InputObjectTypeDefinition, v: Value<C>, p: Seq<PE>) ensures forall|q: Seq<PE>| #[trigger] bad_obj(s, o, v, p, q) == (v.r() is Object && { let e = v.r()->Object_0.e(); let ds = o.s_input_field_definitions()@;
    (some_dup(e) && q == p) || unknown_at(ds, e, e.len() as int, p, q) || bad_fields(s, ds, v, ds.len() as int, p, q) || (one_of_bad(o, e) && q == p) || (some_missing(ds, e, ds.len() as int) && q == p) }) {}
pub proof fn items_step<const C: bool>(s: SchemaDefinition, t: InputType, v: Value<C>, k: int, p: Seq<PE>) requires v.r() is List, 0 < k <= v.r()->List_0@.len() ensures forall|q: Seq<PE>| #[trigger] bad_items(s, t, v, k, p, q) <==> bad_items(s, t, v, k - 1, p, q) || bad(s, t, v.r()->List_0@[k - 1], false, p.push(PE::I(k - 1)), q) { broadcast use vdepth_list; }
}
pub use coercelem::*;
pub use coercion::*; pub use objcoercion::*;
pub mod objcoercion { use super::*; broadcast use {base_lemmas, std_lemmas, len_lemmas, rep};
//@fn src=bluejay-validator/src/value/input_coercion.rs fn=coerce_input_object_value header=""
    ensures r is Err ==> r->Err_0@.len() > 0, forall|q: Seq<PE>| #![trigger reports(says(r), q)] #![trigger bad_obj(*$0, *$2, *$3, $4@, q)] reports(says(r), q) <==> (if $3.r() is Object { bad_obj(*$0, *$2, *$3, $4@, q) } else { q == $4@ })
    decreases vdepth(*$3), 0nat, 3int
//@ sig fn coerce_input_object_value<'a, const CONST: bool>($0: &'a SchemaDefinition, $1: &'a InputType, $2: &'a InputObjectTypeDefinition, $3: &'a Value<CONST>, $4: VPath<'a>) -> (r: Result<(), Vec<CoercionError<'a, CONST>>>)
//@ at start
hide(bad); hide(bad_obj); hide(bad_field); hide(bad_fields); hide(unknown_at); hide(some_missing); hide(some_dup); hide(one_of_bad);
proof { obj_by(*$0, *$2, *$3, $4@); }
//@ subst & 'a < < V as Value < CONST > > :: Object as ObjectValue < CONST > > :: Key ==> & 'a ObjKey
//@ subst & 'a V ==> & 'a Value < CONST >
//@ subst BTreeMap :: new ( ) ==> BTreeMap :: < & 'a str , Vec < ( & 'a ObjKey , & 'a Value < CONST > ) > > :: new ( )
//@ loop ~or_default
@base
pre proof { idxe_none($acc@); assert($s.take(0) =~= Seq::empty()); assert($s.take($s.len() as int) =~= $s); }
invariant idxe($acc@, $s.take($k))
//@ at loop ~or_default start
let ghost __m = $acc@;
//@ at loop ~or_default end
proof { let n = $s[$k - 1].0.s_(); idxe_push(__m, $s, $k, $acc@[n]); assert($acc@ =~= __m.insert(n, $acc@[n])); }
//@ loop ~NonUniqueFieldNames
@base
pre proof { long_all($s, indexed_object@, $3.r()->Object_0.e()); }
ensures forall|q: Seq<PE>| #[trigger] reports(errors@, q) <==> (q == $4@ && some_dup($3.r()->Object_0.e()))
invariant forall|q: Seq<PE>| #[trigger] reports(errors@, q) <==> (q == $4@ && long_upto($s, $k))
//@ loop ~NoInputFieldWithName
@base
pre proof { none_yet(*$0, $2.s_input_field_definitions()@, *$3, $4@); }
invariant forall|q: Seq<PE>| #[trigger] reports(errors@, q) <==> (q == $4@ && some_dup($3.r()->Object_0.e())) || unknown_at($2.s_input_field_definitions()@, $3.r()->Object_0.e(), $k, $4@, q)
//@ at loop ~NoInputFieldWithName end
proof { unknown_step($2.s_input_field_definitions()@, $3.r()->Object_0.e(), $k, $4@); }
//@ loop ~coerce_value
@base
invariant forall|q: Seq<PE>| #![trigger reports(errors@, q)] #![trigger bad_fields(*$0, $2.s_input_field_definitions()@, *$3, $k, $4@, q)] reports(errors@, q) <==> (q == $4@ && some_dup($3.r()->Object_0.e())) || unknown_at($2.s_input_field_definitions()@, $3.r()->Object_0.e(), $3.r()->Object_0.e().len() as int, $4@, q) || bad_fields(*$0, $2.s_input_field_definitions()@, *$3, $k, $4@, q)
invariant missing_required_values@.len() > 0 <==> some_missing($2.s_input_field_definitions()@, $3.r()->Object_0.e(), $k)
//@ at loop ~coerce_value start
let ghost __e0 = errors@;
proof { idxe_get(indexed_object@, $3.r()->Object_0.e()); if $k < $s.len() && ents($3.r()->Object_0.e(), $s[$k].s_name()).len() > 0 { ent_small(*$3, $s[$k].s_name()); } }
//@ at loop ~coerce_value end
proof { let __x = errors@.skip(__e0.len() as int); let __d = $s[$k - 1]; assert(errors@ =~= __e0 + __x);
assert forall|q: Seq<PE>| #[trigger] reports(__x, q) <==> bad_field(*$0, __d, *$3, $4@, q) by { field_by(*$0, __d, *$3, $4@, q); if ents($3.r()->Object_0.e(), __d.s_name()).len() == 0 { assert(__x.len() == 0); } }
assert forall|q: Seq<PE>| #[trigger] reports(errors@, q) <==> reports(__e0, q) || bad_field(*$0, __d, *$3, $4@, q) by { reports_add(__e0, __x, q); }
missing_step($2.s_input_field_definitions()@, $3.r()->Object_0.e(), $k); fields_step(*$0, $2.s_input_field_definitions()@, *$3, $k, $4@); }
//@ loop *~+acc
@base
//@end
}
pub mod coercion { use super::*; broadcast use {base_lemmas, std_lemmas, len_lemmas, rep, input_ref_v, inner_small, vdepth_list, vdepth_obj};
//@fn src=bluejay-validator/src/value/input_coercion.rs impl=CoerceInput:S fn=coerce_value header="impl SchemaDefinition"
    ensures r is Err ==> r->Err_0@.len() > 0, forall|q: Seq<PE>| #![trigger reports(says(r), q)] #![trigger bad(*self, *$0, *$1, true, $2@, q)] reports(says(r), q) <==> bad(*self, *$0, *$1, true, $2@, q),
        r is Err <==> unfit(*self, *$0, *$1, $2@)
    decreases vdepth(*$1), ty_depth($0.v()), 6int
//@ sig fn coerce_value<'a, const CONST: bool>(&'a self, $0: &'a InputType, $1: &'a Value<CONST>, $2: VPath<'a>) -> (r: Result<(), Vec<CoercionError<'a, CONST>>>)
//@ at tail
proof { unfit_by(*self, *$0, *$1, $2@, __tail); }
//@end
//@fn src=bluejay-validator/src/value/input_coercion.rs fn=coerce_value_for_input_type header=""
    ensures r is Err ==> r->Err_0@.len() > 0, forall|q: Seq<PE>| #![trigger reports(says(r), q)] #![trigger bad(*$0, *$1, *$2, $4, $3@, q)] reports(says(r), q) <==> bad(*$0, *$1, *$2, $4, $3@, q)
    decreases vdepth(*$2), ty_depth($1.v()), 5int
//@ sig fn coerce_value_for_input_type<'a, const CONST: bool>($0: &'a SchemaDefinition, $1: &'a InputType, $2: &'a Value<CONST>, $3: VPath<'a>, $4: bool) -> (r: Result<(), Vec<CoercionError<'a, CONST>>>)
//@ loop ~coerce_value_for_input_type
@base
invariant $ix as int == $k
invariant forall|q: Seq<PE>| #![trigger reports($acc@, q)] #![trigger bad_items(*$0, *inner, *$2, $k, $3@, q)] reports($acc@, q) <==> bad_items(*$0, *inner, *$2, $k, $3@, q)
//@ at loop ~coerce_value_for_input_type end
proof { items_step(*$0, *inner, *$2, $k, $3@); }
//@ loop *~push
@append acc
//@end
//@fn src=bluejay-validator/src/value/input_coercion.rs fn=coerce_value_for_base_input_type header=""
    ensures r is Err ==> r->Err_0@.len() > 0, forall|q: Seq<PE>| #![trigger reports(says(r), q)] #![trigger bad_base(*$0, $1.s_base(*$0), *$2, $3@, q)] reports(says(r), q) <==> bad_base(*$0, $1.s_base(*$0), *$2, $3@, q)
    decreases vdepth(*$2), 0nat, 4int
//@ sig fn coerce_value_for_base_input_type<'a, const CONST: bool>($0: &'a SchemaDefinition, $1: &'a InputType, $2: &'a Value<CONST>, $3: VPath<'a>) -> (r: Result<(), Vec<CoercionError<'a, CONST>>>)
//@end
//@fn src=bluejay-validator/src/value/input_coercion.rs fn=coerce_builtin_scalar_value header=""
    ensures r is Ok <==> scalar_ok($1, $2.r()), r is Err ==> r->Err_0@.len() > 0 && forall|q: Seq<PE>| #[trigger] reports(r->Err_0@, q) <==> q == $3@
//@ sig fn coerce_builtin_scalar_value<'a, const CONST: bool>($0: &'a InputType, $1: BuiltinScalarDefinition, $2: &'a Value<CONST>, $3: VPath<'a>) -> (r: Result<(), Vec<CoercionError<'a, CONST>>>)
//@end
//@fn src=bluejay-validator/src/value/input_coercion.rs fn=coerce_custom_scalar_value header=""
    ensures r is Ok <==> $0.s_accepts(*$1), r is Err ==> r->Err_0@.len() > 0 && forall|q: Seq<PE>| #[trigger] reports(r->Err_0@, q) <==> q == $2@
//@ sig fn coerce_custom_scalar_value<'a, const CONST: bool>($0: &'a ScalarTypeDefinition, $1: &'a Value<CONST>, $2: VPath<'a>) -> (r: Result<(), Vec<CoercionError<'a, CONST>>>)
//@end
//@fn src=bluejay-validator/src/value/input_coercion.rs fn=coerce_enum_value header=""
    ensures r is Ok <==> enum_ok(*$1, *$2), r is Err ==> r->Err_0@.len() > 0 && forall|q: Seq<PE>| #[trigger] reports(r->Err_0@, q) <==> q == $3@
//@ subst V :: can_coerce_string_value_to_enum ( ) ==> $2 . can_coerce_string_value_to_enum_ ( )
//@ sig fn coerce_enum_value<'a, const CONST: bool>($0: &'a InputType, $1: &'a EnumTypeDefinition, $2: &'a Value<CONST>, $3: VPath<'a>) -> (r: Result<(), Vec<CoercionError<'a, CONST>>>)
//@end
//@fn src=bluejay-validator/src/value/input_coercion.rs fn=coerce_enum_value_from_name header=""
    ensures r is Ok <==> named_in($0.s_enum_value_definitions()@, $2@), r is Err ==> r->Err_0@.len() > 0 && forall|q: Seq<PE>| #[trigger] reports(r->Err_0@, q) <==> q == $3@
//@ sig fn coerce_enum_value_from_name<'a, const CONST: bool>($0: &'a EnumTypeDefinition, $1: &'a Value<CONST>, $2: &'a str, $3: VPath<'a>) -> (r: Result<(), Vec<CoercionError<'a, CONST>>>)
//@ loop 0
@any z: z.s_name() == $2@
//@end
//@fn src=bluejay-validator/src/value/input_coercion.rs fn=validate_one_of_input_object_value header=""
    ensures r is Ok <==> !one_of_bad(*$0, $2.e()), r is Err ==> r->Err_0@.len() > 0 && forall|q: Seq<PE>| #[trigger] reports(r->Err_0@, q) <==> q == $3@
//@ sig fn validate_one_of_input_object_value<'a, const CONST: bool>($0: &'a InputObjectTypeDefinition, $1: &'a Value<CONST>, $2: &'a ObjV<CONST>, $3: VPath<'a>) -> (r: Result<(), Vec<CoercionError<'a, CONST>>>)
//@ loop ~name
@any z: z.s_name() == "oneOf"@
//@ loop ~Null
@base
pre proof { assert($s.take(0) =~= Seq::empty()); assert($s.take($s.len() as int) =~= $s); }
invariant $acc.0@.len() == nulls($s.take($k), true), $acc.1@.len() == nulls($s.take($k), false)
//@ at loop ~Null end
proof { nulls_step($s, $k); }
//@end
}
} // verus!
fn main() {}
