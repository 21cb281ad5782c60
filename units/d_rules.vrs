// P23: the rules a schema is checked against: unique enum values, unique input fields, no input object that requires itself.
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@include std.inc
//@include core.inc
//@include types.inc
//@include values.inc
//@include typedefs.inc
//@include exec.inc
//@include graph.inc
//@include dups.inc
//@subst TypeDefinitionReference < 'a , S :: TypeDefinition > ==> TypeDefinitionReference < 'a >
//@subst < S as SchemaDefinition > :: $x ==> $x
//@subst S :: $x ==> $x
//@subst < 'a , S > ==> < 'a >
//@subst & 'a S ==> & 'a SchemaDefinition
//@method iter/0 ==> $self.it()
//@method into_iter/0 ==> $self.into_it()
//@rtype it=iter into_it=iter duplicates=iter type_definitions=iter
impl<T> List<T> { pub fn it(&self) -> (r: It<'_, T>) ensures r@ == self@ { self.iter() } }
impl<'a, T> It<'a, T> { pub fn it(self) -> (r: Self) ensures r == self { self } }
//@item src=bluejay-validator/src/definition/error.rs name=Error prefix="#[allow(inconsistent_fields)]" subst="< 'a , S : SchemaDefinition > ==> < 'a >"
pub mod circ { use super::*;
// the named type a value of this type must contain: a non-null type that is not a list
pub open spec fn must<'a>(s: SchemaDefinition, t: &'a InputType) -> Option<BaseInputTypeReference<'a>> { match t.s_ref(s) { InputTypeReference::Base(b, q) => if q { Some(b) } else { None }, _ => None } }
pub open spec fn same_def<'a>(b: BaseInputTypeReference<'a>, t: TypeDefinitionReference<'a>) -> bool { match b { BaseInputTypeReference::InputObject(o) => t == TypeDefinitionReference::InputObject(o), _ => !(t is InputObject) } }
// references resolve to the schema's definition of that name (P23's other half establishes it)
pub open spec fn resolved(s: SchemaDefinition) -> bool { forall|t: &InputType| #[trigger] t.s_ref(s) is Base ==> match first(s.s_type_definitions(), t.s_ref(s)->Base_0.s_name()) { Some(d) => same_def(t.s_ref(s)->Base_0, d), None => false } }
pub open spec fn idef<'a>(s: &'a SchemaDefinition, n: Seq<char>) -> Option<&'a InputObjectTypeDefinition> { match first(s.s_type_definitions(), n) { Some(TypeDefinitionReference::InputObject(o)) => Some(o), _ => None } }
pub open spec fn decl<'a>(s: &'a SchemaDefinition, o: &'a InputObjectTypeDefinition) -> bool { idef(s, o.s_name()) == Some(o) }
pub open spec fn fty<'a>(o: &'a InputObjectTypeDefinition, j: int) -> &'a InputType { &o.s_input_field_definitions()@[j].s_type_() }
pub open spec fn needs(s: SchemaDefinition, o: &InputObjectTypeDefinition, n: Seq<char>) -> bool { exists|j: int| 0 <= j < o.s_input_field_definitions()@.len() && match must(s, #[trigger] fty(o, j)) { Some(b) => b.s_name() == n, None => false } }
// input object a has a field whose value must contain an n
pub open spec fn edge(s: &SchemaDefinition) -> spec_fn(Seq<char>, Seq<char>) -> bool { |a: Seq<char>, n: Seq<char>| match idef(s, a) { Some(o) => needs(*s, o, n), None => false } }
pub open spec fn at_or_reach(s: &SchemaDefinition, a: Seq<char>, n: Seq<char>) -> bool { a == n || reach(edge(s), a, n) }
// x is the type of a field, of o or of an input object a value of o must contain, that must be a t
pub open spec fn refers<'a>(s: &'a SchemaDefinition, o: Seq<char>, t: Seq<char>, x: &'a InputType) -> bool { exists|n: Seq<char>, j: int| #![trigger at_or_reach(s, o, n), fty(idef(s, n)->0, j)] at_or_reach(s, o, n) && idef(s, n) is Some && 0 <= j < idef(s, n)->0.s_input_field_definitions()@.len() && fty(idef(s, n)->0, j) == x && match must(*s, x) { Some(b) => b.s_name() == t, None => false } }
// one field has been looked at
pub open spec fn seen<'a>(s: &'a SchemaDefinition, c: Seq<&'a InputType>, v: Set<Seq<char>>, t: Seq<char>, x: &'a InputType) -> bool { match must(*s, x) { Some(b) => if b.s_name() == t { c.contains(x) } else { b is InputObject ==> v.contains(b.s_name()) }, None => true } }
pub open spec fn upto<'a>(s: &'a SchemaDefinition, c: Seq<&'a InputType>, v: Set<Seq<char>>, t: Seq<char>, o: &'a InputObjectTypeDefinition, k: int) -> bool { forall|j: int| 0 <= j < k ==> seen(s, c, v, t, #[trigger] fty(o, j)) }
pub open spec fn done<'a>(s: &'a SchemaDefinition, c: Seq<&'a InputType>, v: Set<Seq<char>>, t: Seq<char>, n: Seq<char>) -> bool { match idef(s, n) { Some(o) => upto(s, c, v, t, o, o.s_input_field_definitions()@.len() as int), None => true } }
pub open spec fn type_names(s: SchemaDefinition) -> Set<Seq<char>> { s.s_type_definitions().map_values(|d: TypeDefinitionReference| d.nm()).to_set() }
pub proof fn more<'a>(s: &'a SchemaDefinition, c: Seq<&'a InputType>, v: Set<Seq<char>>, c2: Seq<&'a InputType>, v2: Set<Seq<char>>, t: Seq<char>)
    requires forall|x: &'a InputType| c.contains(x) ==> #[trigger] c2.contains(x), v.subset_of(v2)
    ensures forall|n: Seq<char>| #[trigger] done(s, c, v, t, n) ==> done(s, c2, v2, t, n), forall|o: &'a InputObjectTypeDefinition, k: int| #[trigger] upto(s, c, v, t, o, k) ==> upto(s, c2, v2, t, o, k) {
    assert forall|o: &'a InputObjectTypeDefinition, k: int| #[trigger] upto(s, c, v, t, o, k) implies upto(s, c2, v2, t, o, k) by { assert forall|j: int| 0 <= j < k implies seen(s, c2, v2, t, #[trigger] fty(o, j)) by { assert(seen(s, c, v, t, fty(o, j))); } }
}
pub proof fn field_edge<'a>(s: &'a SchemaDefinition, o: &'a InputObjectTypeDefinition, k: int)
    requires decl(s, o), resolved(*s), 0 <= k < o.s_input_field_definitions()@.len(), must(*s, fty(o, k)) is Some
    ensures edge(s)(o.s_name(), must(*s, fty(o, k))->0.s_name()), must(*s, fty(o, k))->0 is InputObject ==> decl(s, must(*s, fty(o, k))->0->InputObject_0) && type_names(*s).contains(must(*s, fty(o, k))->0.s_name()),
        !(must(*s, fty(o, k))->0 is InputObject) ==> idef(s, must(*s, fty(o, k))->0.s_name()) is None,
        forall|n: Seq<char>, t: Seq<char>, x: &'a InputType| must(*s, fty(o, k))->0.s_name() == n && #[trigger] refers(s, n, t, x) ==> refers(s, o.s_name(), t, x),
        forall|n: Seq<char>| at_or_reach(s, must(*s, fty(o, k))->0.s_name(), n) ==> #[trigger] reach(edge(s), o.s_name(), n),
        refers(s, o.s_name(), must(*s, fty(o, k))->0.s_name(), fty(o, k)) {
    let b = must(*s, fty(o, k))->0; let m = b.s_name(); let x = fty(o, k);
    broadcast use base_lemmas;
    assert(needs(*s, o, m)); reach_edge(edge(s), o.s_name(), m);
    let d = first(s.s_type_definitions(), m)->0;
    assert(first(s.s_type_definitions(), m) is Some); assert(s.s_type_definitions().contains(d) && d.nm() == m);
    let f = |d: TypeDefinitionReference| d.nm(); let q = s.s_type_definitions(); let i = choose|i: int| 0 <= i < q.len() && q[i] == d; assert(q.map_values(f)[i] == m); assert(type_names(*s).contains(m));
    assert forall|n: Seq<char>| at_or_reach(s, m, n) implies #[trigger] reach(edge(s), o.s_name(), n) by { if m != n { reach_then(edge(s), o.s_name(), m, n); } }
    assert forall|n: Seq<char>, t: Seq<char>, y: &'a InputType| m == n && #[trigger] refers(s, n, t, y) implies refers(s, o.s_name(), t, y) by {
        let (a, j) = choose|a: Seq<char>, j: int| #![trigger at_or_reach(s, n, a), fty(idef(s, a)->0, j)] at_or_reach(s, n, a) && idef(s, a) is Some && 0 <= j < idef(s, a)->0.s_input_field_definitions()@.len() && fty(idef(s, a)->0, j) == y && match must(*s, y) { Some(b) => b.s_name() == t, None => false };
        assert(at_or_reach(s, o.s_name(), a)); assert(fty(idef(s, a)->0, j) == y);
    }
    assert(at_or_reach(s, o.s_name(), o.s_name())); assert(fty(idef(s, o.s_name())->0, k) == x);
}
// once the search is over, a reference was found exactly if the target requires itself
pub proof fn closed<'a>(s: &'a SchemaDefinition, o: &'a InputObjectTypeDefinition, c: Seq<&'a InputType>, v: Set<Seq<char>>)
    requires resolved(*s), decl(s, o), upto(s, c, v, o.s_name(), o, o.s_input_field_definitions()@.len() as int), forall|n: Seq<char>| #[trigger] v.contains(n) ==> done(s, c, v, o.s_name(), n) && n != o.s_name() && at_or_reach(s, o.s_name(), n), forall|x: &'a InputType| #[trigger] c.contains(x) ==> refers(s, o.s_name(), o.s_name(), x)
    ensures forall|x: &'a InputType| #[trigger] c.contains(x) <==> refers(s, o.s_name(), o.s_name(), x), c.len() > 0 <==> reach(edge(s), o.s_name(), o.s_name()) {
    let t = o.s_name(); let e = edge(s);
    let inv = |n: Seq<char>| n == t || v.contains(n) || idef(s, n) is None;
    assert forall|n: Seq<char>, y: Seq<char>| inv(n) && #[trigger] e(n, y) implies inv(y) by {
        let p = idef(s, n)->0; let j = choose|j: int| 0 <= j < p.s_input_field_definitions()@.len() && match must(*s, #[trigger] fty(p, j)) { Some(b) => b.s_name() == y, None => false };
        broadcast use base_lemmas; assert(p.s_name() == n); field_edge(s, p, j); assert(done(s, c, v, t, n)); assert(seen(s, c, v, t, fty(p, j)));
    }
    assert forall|x: &'a InputType| refers(s, t, t, x) implies #[trigger] c.contains(x) by {
        let (a, j) = choose|a: Seq<char>, j: int| #![trigger at_or_reach(s, t, a), fty(idef(s, a)->0, j)] at_or_reach(s, t, a) && idef(s, a) is Some && 0 <= j < idef(s, a)->0.s_input_field_definitions()@.len() && fty(idef(s, a)->0, j) == x && match must(*s, x) { Some(b) => b.s_name() == t, None => false };
        if a != t { reach_inv(e, inv, t, a); }
        broadcast use base_lemmas; assert(inv(a)); assert(done(s, c, v, t, a)); assert(seen(s, c, v, t, fty(idef(s, a)->0, j)));
    }
    if c.len() > 0 { let x = c[0]; assert(c.contains(x));
        let (a, j) = choose|a: Seq<char>, j: int| #![trigger at_or_reach(s, t, a), fty(idef(s, a)->0, j)] at_or_reach(s, t, a) && idef(s, a) is Some && 0 <= j < idef(s, a)->0.s_input_field_definitions()@.len() && fty(idef(s, a)->0, j) == x && match must(*s, x) { Some(b) => b.s_name() == t, None => false };
        assert(needs(*s, idef(s, a)->0, t)); assert(e(a, t)); reach_edge(e, a, t); if a != t { reach_trans(e, t, a, t); } }
    if reach(e, t, t) { let a = last_step(e, t, t); 
        assert(inv(a)) by { if a != t { reach_inv(e, inv, t, a); } }
        let p = idef(s, a)->0; let j = choose|j: int| 0 <= j < p.s_input_field_definitions()@.len() && match must(*s, #[trigger] fty(p, j)) { Some(b) => b.s_name() == t, None => false };
        broadcast use base_lemmas; assert(done(s, c, v, t, a)); assert(seen(s, c, v, t, fty(p, j))); assert(c.contains(fty(p, j))); }
}
pub proof fn last_step<T>(e: spec_fn(T, T) -> bool, a: T, b: T) -> (c: T) requires reach(e, a, b) ensures e(c, b), c == a || reach(e, a, c) {
    let p = choose|p: Seq<T>| #[trigger] walk(e, p) && p[0] == a && p.last() == b; let n = p.len() - 2; assert(e(p[n], p[n + 1]));
    if n > 0 { let q = p.drop_last(); assert forall|i: int| 0 <= i < q.len() - 1 implies #[trigger] e(q[i], q[i + 1]) by { assert(e(p[i], p[i + 1])); } assert(walk(e, q) && q[0] == a && q.last() == p[n]); }
    p[n]
}
// what an error says
pub open spec fn enum_err<'a>(v: Seq<Error<'a>>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (match #[trigger] v[i] { Error::NonUniqueEnumValueDefinitionNames { name, .. } => name@ == n, _ => false }) }
pub open spec fn input_err<'a>(v: Seq<Error<'a>>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (match #[trigger] v[i] { Error::NonUniqueInputValueDefinitionNames { name, .. } => name@ == n, _ => false }) }
pub broadcast proof fn enum_err_push<'a>(v: Seq<Error<'a>>, e: Error<'a>, n: Seq<char>) ensures #[trigger] enum_err(v.push(e), n) <==> enum_err(v, n) || (match e { Error::NonUniqueEnumValueDefinitionNames { name, .. } => name@ == n, _ => false }) {
    if enum_err(v, n) { let i = choose|i: int| 0 <= i < v.len() && (match #[trigger] v[i] { Error::NonUniqueEnumValueDefinitionNames { name, .. } => name@ == n, _ => false }); assert(v.push(e)[i] == v[i]); }
    if (match e { Error::NonUniqueEnumValueDefinitionNames { name, .. } => name@ == n, _ => false }) { assert(v.push(e)[v.len() as int] == e); }
}
pub broadcast proof fn input_err_push<'a>(v: Seq<Error<'a>>, e: Error<'a>, n: Seq<char>) ensures #[trigger] input_err(v.push(e), n) <==> input_err(v, n) || (match e { Error::NonUniqueInputValueDefinitionNames { name, .. } => name@ == n, _ => false }) {
    if input_err(v, n) { let i = choose|i: int| 0 <= i < v.len() && (match #[trigger] v[i] { Error::NonUniqueInputValueDefinitionNames { name, .. } => name@ == n, _ => false }); assert(v.push(e)[i] == v[i]); }
    if (match e { Error::NonUniqueInputValueDefinitionNames { name, .. } => name@ == n, _ => false }) { assert(v.push(e)[v.len() as int] == e); }
}
}
pub use circ::*;
pub mod rules { use super::*; broadcast use {base_lemmas, std_lemmas, len_lemmas, enum_err_push, input_err_push};
//@item src=bluejay-validator/src/definition/rules/enum_value_definition_uniqueness.rs name=EnumValueDefinitionUniqueness subst="< 'a , S : SchemaDefinition + 'a > ==> < 'a >"
//@fn src=bluejay-validator/src/definition/rules/enum_value_definition_uniqueness.rs impl=Rule:EnumValueDefinitionUniqueness fn=new header="impl<'a> EnumValueDefinitionUniqueness<'a>" id=EnumValueDefinitionUniqueness::new
    ensures r.errors@.len() == 0
//@end
//@fn src=bluejay-validator/src/definition/rules/enum_value_definition_uniqueness.rs impl=Visitor:EnumValueDefinitionUniqueness fn=visit_enum_type_definition header="impl<'a> EnumValueDefinitionUniqueness<'a>"
    ensures grew(old(self).errors@, final(self).errors@, dup($0.s_enum_value_definitions()@)),
        forall|n: Seq<char>| #[trigger] enum_err(final(self).errors@, n) <==> enum_err(old(self).errors@, n) || dupn($0.s_enum_value_definitions()@, n)
//@ loop ~NonUniqueEnumValueDefinitionNames
@base
invariant self.errors@.len() == old(self).errors@.len() + $k, forall|n: Seq<char>| #![trigger enum_err(self.errors@, n)] enum_err(self.errors@, n) <==> enum_err(old(self).errors@, n) || exists|j: int| 0 <= j < $k && (#[trigger] $s[j]).0@ == n
//@end
//@item src=bluejay-validator/src/definition/rules/input_field_definition_uniqueness.rs name=InputFieldDefinitionUniqueness subst="< 'a , S : SchemaDefinition + 'a > ==> < 'a >"
//@fn src=bluejay-validator/src/definition/rules/input_field_definition_uniqueness.rs impl=Rule:InputFieldDefinitionUniqueness fn=new header="impl<'a> InputFieldDefinitionUniqueness<'a>" id=InputFieldDefinitionUniqueness::new
    ensures r.errors@.len() == 0
//@end
//@fn src=bluejay-validator/src/definition/rules/input_field_definition_uniqueness.rs impl=Visitor:InputFieldDefinitionUniqueness fn=visit_input_object_type_definition header="impl<'a> InputFieldDefinitionUniqueness<'a>" id=InputFieldDefinitionUniqueness::visit_input_object_type_definition
    ensures grew(old(self).errors@, final(self).errors@, dup($0.s_input_field_definitions()@)),
        forall|n: Seq<char>| #[trigger] input_err(final(self).errors@, n) <==> input_err(old(self).errors@, n) || dupn($0.s_input_field_definitions()@, n)
//@ loop ~NonUniqueInputValueDefinitionNames
@base
invariant self.errors@.len() == old(self).errors@.len() + $k, forall|n: Seq<char>| #![trigger input_err(self.errors@, n)] input_err(self.errors@, n) <==> input_err(old(self).errors@, n) || exists|j: int| 0 <= j < $k && (#[trigger] $s[j]).0@ == n
//@end
//@item src=bluejay-validator/src/definition/rules/input_object_circular_references.rs name=InputObjectCircularReferences subst="< 'a , S : SchemaDefinition + 'a > ==> < 'a >"
//@fn src=bluejay-validator/src/definition/rules/input_object_circular_references.rs impl=Rule:InputObjectCircularReferences fn=new header="impl<'a> InputObjectCircularReferences<'a>" id=InputObjectCircularReferences::new
    ensures r.errors@.len() == 0, r.schema_definition == $0
//@end
//@fn src=bluejay-validator/src/definition/rules/input_object_circular_references.rs impl=InputObjectCircularReferences fn=visit_for_circular_references header="impl<'a> InputObjectCircularReferences<'a>"
    requires resolved(*$0), decl($0, $1), decl($0, $2)
    ensures old($4)@.subset_of(final($4)@), forall|x: &'a InputType| old($3)@.contains(x) ==> #[trigger] final($3)@.contains(x),
        final($4)@.contains($1.s_name()) ==> old($4)@.contains($1.s_name()),
        upto($0, final($3)@, final($4)@, $1.s_name(), $2, $2.s_input_field_definitions()@.len() as int),
        forall|n: Seq<char>| #![trigger final($4)@.contains(n)] final($4)@.contains(n) && !old($4)@.contains(n) ==> done($0, final($3)@, final($4)@, $1.s_name(), n) && reach(edge($0), $2.s_name(), n),
        forall|x: &'a InputType| #![trigger final($3)@.contains(x)] final($3)@.contains(x) && !old($3)@.contains(x) ==> refers($0, $2.s_name(), $1.s_name(), x),
        $1 == $2 && (forall|n: Seq<char>| !(#[trigger] old($4)@.contains(n))) && old($3)@.len() == 0 ==> (forall|x: &'a InputType| #[trigger] final($3)@.contains(x) <==> refers($0, $1.s_name(), $1.s_name(), x)) && (final($3)@.len() > 0 <==> reach(edge($0), $1.s_name(), $1.s_name()))
    decreases type_names(*$0).difference(old($4)@).len()
//@ loop ~as_ref
@base
invariant old($4)@.subset_of($4@), forall|x: &'a InputType| old($3)@.contains(x) ==> #[trigger] $3@.contains(x)
invariant $4@.contains($1.s_name()) ==> old($4)@.contains($1.s_name())
invariant upto($0, $3@, $4@, $1.s_name(), $2, $k)
invariant forall|n: Seq<char>| #![trigger $4@.contains(n)] $4@.contains(n) && !old($4)@.contains(n) ==> done($0, $3@, $4@, $1.s_name(), n) && reach(edge($0), $2.s_name(), n)
invariant forall|x: &'a InputType| #![trigger $3@.contains(x)] $3@.contains(x) && !old($3)@.contains(x) ==> refers($0, $2.s_name(), $1.s_name(), x)
//@ at loop ~as_ref start
let ghost __c = $3@; let ghost __v = $4@;
proof { if $k < $s.len() && must(*$0, fty($2, $k)) is Some { field_edge($0, $2, $k); let n = must(*$0, fty($2, $k))->0.s_name();
  if type_names(*$0).contains(n) && !__v.contains(n) { assert(type_names(*$0).difference(__v).contains(n)); assert(type_names(*$0).difference(__v.insert(n)) =~= type_names(*$0).difference(__v).remove(n)); 
    assert(type_names(*$0).difference(__v).subset_of(type_names(*$0).difference(old($4)@))); vstd::set_lib::lemma_len_subset(type_names(*$0).difference(__v), type_names(*$0).difference(old($4)@)); } } }
//@ at loop ~as_ref end
proof { more($0, __c, __v, $3@, $4@, $1.s_name()); assert(fty($2, $k - 1) == &$s[$k - 1].s_type_()); }
//@ at tail
proof { if $1 == $2 && (forall|n: Seq<char>| !(#[trigger] old($4)@.contains(n))) && old($3)@.len() == 0 { assert(old($3)@ =~= Seq::empty()); closed($0, $1, $3@, $4@); } }
//@end
//@fn src=bluejay-validator/src/definition/rules/input_object_circular_references.rs impl=Visitor:InputObjectCircularReferences fn=visit_input_object_type_definition header="impl<'a> InputObjectCircularReferences<'a>" id=InputObjectCircularReferences::visit_input_object_type_definition
    requires resolved(*old(self).schema_definition), decl(old(self).schema_definition, $0)
    ensures final(self).schema_definition == old(self).schema_definition, grew(old(self).errors@, final(self).errors@, reach(edge(old(self).schema_definition), $0.s_name(), $0.s_name())),
        final(self).errors@.len() > old(self).errors@.len() ==> final(self).errors@.len() == old(self).errors@.len() + 1 && final(self).errors@.drop_last() == old(self).errors@ && match final(self).errors@.last() { Error::InputObjectTypeDefinitionCircularReferences { input_object_type_definition, circular_references } => input_object_type_definition == $0 && (forall|x: &'a InputType| #[trigger] circular_references@.contains(x) <==> refers(old(self).schema_definition, $0.s_name(), $0.s_name(), x)), _ => false }
//@end
// The driver: every input object and every enum of the schema is given to the rules, once, and their errors are returned.
pub enum DEv<'a> { Input(&'a InputObjectTypeDefinition), Enum(&'a EnumTypeDefinition) }
pub open spec fn dev<'a>(t: TypeDefinitionReference<'a>) -> Seq<DEv<'a>> { match t { TypeDefinitionReference::InputObject(o) => seq![DEv::Input(o)], TypeDefinitionReference::Enum(e) => seq![DEv::Enum(e)], _ => Seq::empty() } }
pub open spec fn devs<'a>(q: Seq<TypeDefinitionReference<'a>>, k: int) -> Seq<DEv<'a>> decreases k { if k <= 0 { Seq::empty() } else { devs(q, k - 1) + dev(q[k - 1]) } }
pub trait Rule<'a>: Sized {
    type Error;
    spec fn log(&self) -> Seq<DEv<'a>>;
    spec fn errs(s: SchemaDefinition, l: Seq<DEv<'a>>) -> Seq<Self::Error>;
    spec fn of(&self) -> &'a SchemaDefinition;
    fn new(s: &'a SchemaDefinition) -> (r: Self) ensures r.log() == Seq::<DEv<'a>>::empty(), r.of() == s;
    fn visit_input_object_type_definition(&mut self, o: &'a InputObjectTypeDefinition) ensures final(self).log() == old(self).log().push(DEv::Input(o)), final(self).of() == old(self).of();
    fn visit_enum_type_definition(&mut self, o: &'a EnumTypeDefinition) ensures final(self).log() == old(self).log().push(DEv::Enum(o)), final(self).of() == old(self).of();
    fn into_iter(self) -> (r: ItV<Self::Error>) ensures r@ == Self::errs(*self.of(), self.log());
    fn into_it(self) -> (r: ItV<Self::Error>) ensures r@ == Self::errs(*self.of(), self.log());
}
pub mod driver { use super::*; broadcast use {base_lemmas, std_lemmas, len_lemmas};
//@item src=bluejay-validator/src/definition/validator.rs name=Validator subst="< 'a , S : SchemaDefinition , R : Rule < 'a > > ==> < 'a , R : Rule < 'a > >"
//@fn src=bluejay-validator/src/definition/validator.rs impl=Validator fn=new header="impl<'a, R: Rule<'a>> Validator<'a, R>" id=Validator::new
    ensures r.rule.log() == Seq::<DEv<'a>>::empty(), r.schema_definition == $0, r.rule.of() == $0
//@ subst Rule :: new ==> R :: new
//@end
//@fn src=bluejay-validator/src/definition/validator.rs impl=Validator fn=visit_input_object_type_definition header="impl<'a, R: Rule<'a>> Validator<'a, R>" id=Validator::visit_input_object_type_definition
    ensures final(self).rule.log() == old(self).rule.log().push(DEv::Input($0)), final(self).schema_definition == old(self).schema_definition, final(self).rule.of() == old(self).rule.of()
//@end
//@fn src=bluejay-validator/src/definition/validator.rs impl=Validator fn=visit_enum_type_definition header="impl<'a, R: Rule<'a>> Validator<'a, R>" id=Validator::visit_enum_type_definition
    ensures final(self).rule.log() == old(self).rule.log().push(DEv::Enum($0)), final(self).schema_definition == old(self).schema_definition, final(self).rule.of() == old(self).rule.of()
//@end
//@fn src=bluejay-validator/src/definition/validator.rs impl=Validator fn=visit header="impl<'a, R: Rule<'a>> Validator<'a, R>"
    ensures final(self).rule.log() =~= old(self).rule.log() + devs(old(self).schema_definition.s_type_definitions(), old(self).schema_definition.s_type_definitions().len() as int), final(self).rule.of() == old(self).rule.of()
//@ loop 0
@base
invariant self.schema_definition == old(self).schema_definition, self.rule.of() == old(self).rule.of(), self.rule.log() =~= old(self).rule.log() + devs($s, $k)
//@end
//@fn src=bluejay-validator/src/definition/validator.rs impl=IntoIterator:Validator fn=into_iter header="impl<'a, R: Rule<'a>> Validator<'a, R>" id=Validator::into_iter
    ensures r@ == R::errs(*self.rule.of(), self.rule.log())
//@ sig fn into_iter(self) -> (r: ItV<R::Error>)
//@end
//@fn src=bluejay-validator/src/definition/validator.rs impl=Validator fn=validate header="impl<'a, R: Rule<'a>> Validator<'a, R>"
    ensures r@ == R::errs(*$0, devs($0.s_type_definitions(), $0.s_type_definitions().len() as int))
//@ sig fn validate($0: &'a SchemaDefinition) -> (r: ItV<R::Error>)
//@ method into_iter/0 ==> $self.into_iter()
//@end
}
}
} // verus!
fn main() {}
