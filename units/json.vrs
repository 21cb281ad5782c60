// P24: JSON as GraphQL values: what Value::as_ref shows of a JSON value, and that coercion treats it as the equal literal.
#![feature(allocator_api)]
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@include std.inc
//@include core.inc
//@include types.inc
//@include values.inc
//@include typedefs.inc
//@include exec.inc
//@include coerce_spec.inc
pub mod json { use super::*; broadcast use {base_lemmas, std_lemmas, len_lemmas};
// serde_json (assumed): its Value, what its numbers and maps answer
#[verifier::external_body]
pub struct Number { x: u8 }
impl Number {
    // the value, if it is an integer of 64 bits; the nearest double
    pub uninterp spec fn whole(&self) -> Option<i64>;
    pub uninterp spec fn double(&self) -> f64;
    #[verifier::external_body] pub fn as_i64(&self) -> (r: Option<i64>) ensures r == self.whole() { unimplemented!() }
    #[verifier::external_body] pub fn as_f64(&self) -> (r: Option<f64>) ensures r == Some(self.double()) { unimplemented!() }
}
#[verifier::external_body]
pub struct JMap { x: u8 }
impl JMap { pub uninterp spec fn e(&self) -> Seq<(&String, &JsonValue)>; #[verifier::external_body] pub fn iter(&self) -> (r: ItV<(&String, &JsonValue)>) ensures r@ == self.e() { unimplemented!() } }
pub enum JsonValue { Null, Bool(bool), Number(Number), String(String), Array(Vec<JsonValue>), Object(Box<JMap>) }
#[verifier::external_body] pub struct Never { x: u8 } // the empty enum
//@item src=bluejay-core/src/value.rs name=ValueReference subst="ValueReference ==> JRef;;< 'a , const CONST : bool , V : Value < CONST > > ==> < 'a >;;V :: Variable ==> Never;;V :: List ==> Vec < JsonValue >;;V :: Object ==> JMap"
pub fn to_i32(i: i64) -> (r: Option<i32>) ensures r == (if i32::MIN <= i <= i32::MAX { Some(i as i32) } else { None::<i32> }) { if i >= i32::MIN as i64 && i <= i32::MAX as i64 { Some(i as i32) } else { None } }
pub open spec fn shown<'a>(j: JsonValue, r: JRef<'a>) -> bool { match j {
    JsonValue::Null => r is Null,
    JsonValue::Bool(b) => r == JRef::<'a>::Boolean(b),
    JsonValue::Number(n) => match n.whole() {
        Some(i) if i32::MIN <= i <= i32::MAX => r == JRef::<'a>::Integer(i as i32),
        _ => r == JRef::<'a>::Float(n.double()) },
    JsonValue::String(s) => r is String && r->String_0@ == s@,
    JsonValue::Array(l) => r is List && r->List_0@ == l@,
    JsonValue::Object(o) => r is Object && r->Object_0.e() == o.e() } }
//@fn src=bluejay-core/src/value/serde_json.rs impl=Value:JsonValue fn=as_ref header="impl JsonValue"
    ensures shown(*self, r)
//@ sig fn as_ref(&self) -> (r: JRef<'_>)
//@ subst i32 :: try_from ( i ) . ok ( ) ==> to_i32 ( i )
//@ subst ValueReference :: String ( s ) ==> JRef :: String ( s . as_str ( ) )
//@ subst ValueReference :: $x ==> JRef :: $x
//@end
//@fn src=bluejay-core/src/value/serde_json.rs impl=Value:JsonValue fn=can_coerce_string_value_to_enum header="impl JsonValue"
    ensures r
//@ sig fn can_coerce_string_value_to_enum() -> (r: bool)
//@end
//@fn src=bluejay-core/src/value/serde_json.rs impl=ObjectValue:Map fn=iter as=entries header="impl JMap"
    ensures r@ == self.e()
//@ sig fn entries(&self) -> (r: ItV<(&String, &JsonValue)>)
//@end
}
// Any two values that show the same, one possibly writing enum members as strings, are coerced alike.
pub mod alike_ { use super::*; broadcast use {vdepth_list, vdepth_obj};
// the literal v and the value w (JSON) show the same; enum members and strings of v are strings of w
pub open spec fn alike<const C: bool, const D: bool>(v: Value<C>, w: Value<D>) -> bool decreases vdepth(v) {
    str_enum(w) && !str_enum(v) && match (v.r(), w.r()) {
        (ValueReference::Null, ValueReference::Null) => true,
        (ValueReference::Boolean(a), ValueReference::Boolean(b)) => a == b,
        (ValueReference::Integer(a), ValueReference::Integer(b)) => a == b,
        (ValueReference::Float(a), ValueReference::Float(b)) => a == b,
        (ValueReference::String(a), ValueReference::String(b)) => a@ == b@,
        (ValueReference::Enum(a), ValueReference::String(b)) => a@ == b@,
        (ValueReference::List(a), ValueReference::List(b)) => a@.len() == b@.len() && forall|i: int| #![trigger a@[i]] #![trigger b@[i]] 0 <= i < a@.len() ==> vdepth(a@[i]) < vdepth(v) && alike(a@[i], b@[i]),
        (ValueReference::Object(a), ValueReference::Object(b)) => a.e().len() == b.e().len() && forall|i: int| #![trigger a.e()[i]] #![trigger b.e()[i]] 0 <= i < a.e().len() ==> a.e()[i].0.s_() == b.e()[i].0.s_() && vdepth(*a.e()[i].1) < vdepth(v) && alike(*a.e()[i].1, *b.e()[i].1),
        _ => false } }
// no part of the value is a string or an enum member
pub open spec fn textless<const C: bool>(v: Value<C>) -> bool decreases vdepth(v) { match v.r() {
    ValueReference::String(_) => false, ValueReference::Enum(_) => false,
    ValueReference::List(a) => forall|i: int| #![trigger a@[i]] 0 <= i < a@.len() ==> vdepth(a@[i]) < vdepth(v) && textless(a@[i]),
    ValueReference::Object(a) => forall|i: int| #![trigger a.e()[i]] 0 <= i < a.e().len() ==> vdepth(*a.e()[i].1) < vdepth(v) && textless(*a.e()[i].1),
    _ => true } }
// a custom scalar's rule does not tell alike values apart
pub open spec fn fair<const C: bool, const D: bool>() -> bool { forall|c: ScalarTypeDefinition, v: Value<C>, w: Value<D>| #![trigger c.s_accepts(v), c.s_accepts(w)] alike(v, w) ==> c.s_accepts(v) == c.s_accepts(w) }
pub open spec fn both<const C: bool, const D: bool>(v: Value<C>, w: Value<D>) -> bool { alike(v, w) && fair::<C, D>() }
pub open spec fn eqs<'a, 'b, const C: bool, const D: bool>(e: Seq<(&'a ObjKey, &'a Value<C>)>, f: Seq<(&'b ObjKey, &'b Value<D>)>) -> bool {
    e.len() == f.len() && forall|i: int| #![trigger e[i]] #![trigger f[i]] 0 <= i < e.len() ==> e[i].0.s_() == f[i].0.s_() && alike(*e[i].1, *f[i].1) }
pub proof fn ents_alike<'a, 'b, const C: bool, const D: bool>(e: Seq<(&'a ObjKey, &'a Value<C>)>, f: Seq<(&'b ObjKey, &'b Value<D>)>, n: Seq<char>)
    requires eqs(e, f) ensures eqs(ents(e, n), ents(f, n)) decreases e.len() {
    if e.len() > 0 { let (e1, f1) = (e.drop_last(), f.drop_last());
        assert(eqs(e1, f1)) by { assert forall|i: int| #![trigger e1[i]] #![trigger f1[i]] 0 <= i < e1.len() implies e1[i].0.s_() == f1[i].0.s_() && alike(*e1[i].1, *f1[i].1) by { assert(e[i] == e1[i] && f[i] == f1[i]); } }
        ents_alike(e1, f1, n);
        let k = e.len() - 1; assert(e.last() == e[k] && f.last() == f[k]); assert(e[k].0.s_() == f[k].0.s_() && alike(*e[k].1, *f[k].1));
        let (x, y) = (ents(e1, n), ents(f1, n));
        assert forall|i: int| #![trigger ents(e, n)[i]] #![trigger ents(f, n)[i]] 0 <= i < ents(e, n).len() implies ents(e, n)[i].0.s_() == ents(f, n)[i].0.s_() && alike(*ents(e, n)[i].1, *ents(f, n)[i].1) by { if i < x.len() { assert(ents(e, n)[i] == x[i] && ents(f, n)[i] == y[i]); } } }
}
pub proof fn nulls_alike<'a, 'b, const C: bool, const D: bool>(e: Seq<(&'a ObjKey, &'a Value<C>)>, f: Seq<(&'b ObjKey, &'b Value<D>)>, b: bool)
    requires eqs(e, f) ensures nulls(e, b) == nulls(f, b) decreases e.len() {
    if e.len() > 0 { let (e1, f1) = (e.drop_last(), f.drop_last());
        assert(eqs(e1, f1)) by { assert forall|i: int| #![trigger e1[i]] #![trigger f1[i]] 0 <= i < e1.len() implies e1[i].0.s_() == f1[i].0.s_() && alike(*e1[i].1, *f1[i].1) by { assert(e[i] == e1[i] && f[i] == f1[i]); } }
        nulls_alike(e1, f1, b); let k = e.len() - 1; assert(e.last() == e[k] && f.last() == f[k]); assert(alike(*e[k].1, *f[k].1)); }
}
pub proof fn obj_eqs<const C: bool, const D: bool>(v: Value<C>, w: Value<D>) requires alike(v, w), v.r() is Object ensures w.r() is Object, eqs(v.r()->Object_0.e(), w.r()->Object_0.e()) {
    let (a, b) = (v.r()->Object_0, w.r()->Object_0);
    assert forall|i: int| #![trigger a.e()[i]] #![trigger b.e()[i]] 0 <= i < a.e().len() implies a.e()[i].0.s_() == b.e()[i].0.s_() && alike(*a.e()[i].1, *b.e()[i].1) by { let x = a.e()[i]; let y = b.e()[i]; }
}
// what is wrong with the JSON value is wrong with the literal; without strings and enum members, and conversely
pub proof fn bad_alike<const C: bool, const D: bool>(s: SchemaDefinition, t: InputType, v: Value<C>, w: Value<D>, allow: bool, p: Seq<PE>, q: Seq<PE>)
    requires both(v, w) ensures bad(s, t, w, allow, p, q) ==> bad(s, t, v, allow, p, q), textless(v) && bad(s, t, v, allow, p, q) ==> bad(s, t, w, allow, p, q)
    decreases vdepth(v), ty_depth(t.v()), 5int {
    broadcast use inner_small;
    match t.s_ref(s) {
        InputTypeReference::Base(b, _) => { base_alike(s, b, v, w, p, q); }
        InputTypeReference::List(i, _) => { if v.r() is List { items_alike(s, *i, v, w, p, q); } else { bad_alike(s, *i, v, w, true, p, q); } }
    }
}
pub proof fn items_alike<const C: bool, const D: bool>(s: SchemaDefinition, t: InputType, v: Value<C>, w: Value<D>, p: Seq<PE>, q: Seq<PE>)
    requires both(v, w), v.r() is List ensures ({ let n = v.r()->List_0@.len() as int; bad_items(s, t, w, n, p, q) ==> bad_items(s, t, v, n, p, q) }), ({ let n = v.r()->List_0@.len() as int; textless(v) && bad_items(s, t, v, n, p, q) ==> bad_items(s, t, w, n, p, q) })
    decreases vdepth(v), 0nat, 4int {
    let (a, b) = (v.r()->List_0, w.r()->List_0); let n = a@.len() as int;
    assert forall|i: int| #![trigger a@[i]] #![trigger b@[i]] 0 <= i < n implies (bad(s, t, b@[i], false, p.push(PE::I(i)), q) ==> bad(s, t, a@[i], false, p.push(PE::I(i)), q)) && (textless(v) && bad(s, t, a@[i], false, p.push(PE::I(i)), q) ==> bad(s, t, b@[i], false, p.push(PE::I(i)), q)) by {
        assert(alike(a@[i], b@[i])); if textless(v) { assert(textless(a@[i])); } bad_alike(s, t, a@[i], b@[i], false, p.push(PE::I(i)), q); }
    if bad_items(s, t, w, n, p, q) { let i = choose|i: int| #![trigger b@[i]] 0 <= i < n && i < b@.len() && vdepth(b@[i]) < vdepth(w) && bad(s, t, b@[i], false, p.push(PE::I(i)), q); assert(bad(s, t, a@[i], false, p.push(PE::I(i)), q)); }
    if textless(v) && bad_items(s, t, v, n, p, q) { let i = choose|i: int| #![trigger a@[i]] 0 <= i < n && i < a@.len() && vdepth(a@[i]) < vdepth(v) && bad(s, t, a@[i], false, p.push(PE::I(i)), q); assert(bad(s, t, b@[i], false, p.push(PE::I(i)), q)); }
}
pub proof fn base_alike<'a, const C: bool, const D: bool>(s: SchemaDefinition, b: BaseInputTypeReference<'a>, v: Value<C>, w: Value<D>, p: Seq<PE>, q: Seq<PE>)
    requires both(v, w) ensures bad_base(s, b, w, p, q) ==> bad_base(s, b, v, p, q), textless(v) && bad_base(s, b, v, p, q) ==> bad_base(s, b, w, p, q)
    decreases vdepth(v), 0nat, 4int {
    match b {
        BaseInputTypeReference::CustomScalar(c) => { assert(c.s_accepts(v) == c.s_accepts(w)); }
        BaseInputTypeReference::InputObject(o) => { if v.r() is Object { obj_alike(s, *o, v, w, p, q); } }
        _ => {}
    }
}
pub proof fn obj_alike<const C: bool, const D: bool>(s: SchemaDefinition, o: InputObjectTypeDefinition, v: Value<C>, w: Value<D>, p: Seq<PE>, q: Seq<PE>)
    requires both(v, w), v.r() is Object ensures bad_obj(s, o, w, p, q) ==> bad_obj(s, o, v, p, q), textless(v) && bad_obj(s, o, v, p, q) ==> bad_obj(s, o, w, p, q)
    decreases vdepth(v), 0nat, 3int {
    obj_eqs(v, w); let (e, f) = (v.r()->Object_0.e(), w.r()->Object_0.e()); let ds = o.s_input_field_definitions()@;
    nulls_alike(e, f, true); nulls_alike(e, f, false);
    assert forall|n: Seq<char>| #![trigger ents(e, n)] #![trigger ents(f, n)] eqs(ents(e, n), ents(f, n)) by { ents_alike(e, f, n); }
    assert(some_dup(e) == some_dup(f)) by { if some_dup(e) { let n = choose|n: Seq<char>| #[trigger] ents(e, n).len() > 1; assert(ents(f, n).len() > 1); } if some_dup(f) { let n = choose|n: Seq<char>| #[trigger] ents(f, n).len() > 1; assert(ents(e, n).len() > 1); } }
    let n = e.len() as int;
    assert(unknown_at(ds, e, n, p, q) == unknown_at(ds, f, n, p, q)) by {
        if unknown_at(ds, e, n, p, q) { let i = choose|i: int| 0 <= i < n && !named_in(ds, (#[trigger] e[i]).0.s_()) && q == p.push(PE::K(e[i].0.s_())); assert(f[i].0.s_() == e[i].0.s_()); }
        if unknown_at(ds, f, n, p, q) { let i = choose|i: int| 0 <= i < n && !named_in(ds, (#[trigger] f[i]).0.s_()) && q == p.push(PE::K(f[i].0.s_())); assert(f[i].0.s_() == e[i].0.s_()); } }
    let k = ds.len() as int;
    assert(some_missing(ds, e, k) == some_missing(ds, f, k)) by {
        if some_missing(ds, e, k) { let i = choose|i: int| 0 <= i < k && missing(#[trigger] ds[i], e); assert(eqs(ents(e, ds[i].s_name()), ents(f, ds[i].s_name()))); assert(missing(ds[i], f)); }
        if some_missing(ds, f, k) { let i = choose|i: int| 0 <= i < k && missing(#[trigger] ds[i], f); assert(eqs(ents(e, ds[i].s_name()), ents(f, ds[i].s_name()))); assert(missing(ds[i], e)); } }
    assert forall|i: int| 0 <= i < k implies (bad_field(s, #[trigger] ds[i], w, p, q) ==> bad_field(s, ds[i], v, p, q)) && (textless(v) && bad_field(s, ds[i], v, p, q) ==> bad_field(s, ds[i], w, p, q)) by { field_alike(s, ds[i], v, w, p, q); }
    if bad_fields(s, ds, w, k, p, q) { let i = choose|i: int| #![trigger ds[i]] 0 <= i < k && i < ds.len() && bad_field(s, ds[i], w, p, q); assert(bad_field(s, ds[i], v, p, q)); }
    if textless(v) && bad_fields(s, ds, v, k, p, q) { let i = choose|i: int| #![trigger ds[i]] 0 <= i < k && i < ds.len() && bad_field(s, ds[i], v, p, q); assert(bad_field(s, ds[i], w, p, q)); }
}
pub proof fn field_alike<const C: bool, const D: bool>(s: SchemaDefinition, d: InputValueDefinition, v: Value<C>, w: Value<D>, p: Seq<PE>, q: Seq<PE>)
    requires both(v, w), v.r() is Object ensures bad_field(s, d, w, p, q) ==> bad_field(s, d, v, p, q), textless(v) && bad_field(s, d, v, p, q) ==> bad_field(s, d, w, p, q)
    decreases vdepth(v), 0nat, 1int {
    broadcast use ent_small;
    obj_eqs(v, w); let (e, f) = (v.r()->Object_0.e(), w.r()->Object_0.e()); let n = d.s_name(); ents_alike(e, f, n); let (x, y) = (ents(e, n), ents(f, n));
    if x.len() > 0 {
        assert(alike(*x[0].1, *y[0].1));
        if textless(v) { ents_mem(e, n); let j = choose|j: int| 0 <= j < e.len() && e[j] == x[0]; assert(textless(*e[j].1)); }
        bad_alike(s, d.s_type_(), *x[0].1, *y[0].1, true, p.push(PE::K(n)), q);
    }
}
// P24: JSON acceptable wherever the equivalent literal is; and the same at types and values for which both notations exist
pub proof fn same_verdict<const C: bool, const D: bool>(s: SchemaDefinition, t: InputType, v: Value<C>, w: Value<D>, p: Seq<PE>)
    requires both(v, w) ensures unfit(s, t, w, p) ==> unfit(s, t, v, p), textless(v) ==> (unfit(s, t, w, p) <==> unfit(s, t, v, p)) {
    if unfit(s, t, w, p) { let q = choose|q: Seq<PE>| bad(s, t, w, true, p, q); bad_alike(s, t, v, w, true, p, q); }
    if textless(v) && unfit(s, t, v, p) { let q = choose|q: Seq<PE>| bad(s, t, v, true, p, q); bad_alike(s, t, v, w, true, p, q); }
}
}
} // verus!
fn main() {}
