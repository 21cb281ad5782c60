// P23: a parsed type-system document becomes a schema exactly when it is well-formed.
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@include std.inc
//@include core.inc
//@include types.inc
//@include typedefs.inc
//@subst < 'a , C > ==> 
//@subst FieldsDefinition ==> List<FieldDefinition>
//@subst InterfaceImplementations ==> List<InterfaceImplementation>
//@subst Directives ==> List<Directive<true>>
//@subst T :: CustomScalarTypeDefinition ==> ScalarTypeDefinition
//@subst O :: CustomScalarTypeDefinition ==> ScalarTypeDefinition
//@subst CustomScalarTypeDefinition ==> ScalarTypeDefinition
//@subst RootOperationTypeDefinition < 'a > ==> RootOperationTypeDefinition
//@subst Name < 'a > ==> str
//@subst DefinitionDocumentError ==> DErr
//@method iter/0 ==> $self.it()
//@method into_iter/0 ==> $self.into_it()
//@method as_ref/0 ==> $self
//@method name_token/0 ==> $self.name()
//@method interface_name/0 ==> $self.name()
//@rtype it=iter into_it=iter values=iter
impl<T> List<T> { pub fn it(&self) -> (r: It<'_, T>) ensures r@ == self@ { self.iter() } }
impl<'a, T> It<'a, T> { pub fn it(self) -> (r: Self) ensures r == self { self } }
impl<'a, 'b, T> It<'a, &'b T> { #[verifier::external_body] pub fn copied(self) -> (r: ItV<&'b T>) ensures r@ == self@ { unimplemented!() } }
pub trait VecFirst<T> { spec fn fv(&self) -> Seq<T>; fn first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.fv().len() > 0 && *x == self.fv()[0], None => self.fv().len() == 0 }; }
impl<T> VecFirst<T> for Vec<T> { open spec fn fv(&self) -> Seq<T> { self@ } fn first(&self) -> (r: Option<&T>) { if self.len() > 0 { Some(&self[0]) } else { None } } }
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied](o: Option<&'a T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None });
// parser types the core accessors do not cover
pub struct BaseType { x: u8 }
impl BaseType { pub uninterp spec fn s_name(&self) -> Seq<char>; #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() } }
impl InputType { #[verifier::external_body] pub fn base(&self) -> (r: &BaseType) ensures r.s_name() == ty_base(self.v()) { unimplemented!() } }
impl OutputType { #[verifier::external_body] pub fn base(&self) -> (r: &BaseType) ensures r.s_name() == ty_base(self.v()) { unimplemented!() } }
#[verifier::external_body] pub struct RootOperationTypeDefinition { x: u8 }
impl RootOperationTypeDefinition {
    pub uninterp spec fn s_name(&self) -> Seq<char>; #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() }
    pub uninterp spec fn s_op(&self) -> OperationType; #[verifier::external_body] pub fn operation_type(&self) -> (r: OperationType) ensures r == self.s_op() { unimplemented!() }
}
#[verifier::external_body] pub struct ExplicitSchemaDefinition { x: u8 }
impl ExplicitSchemaDefinition {
    pub uninterp spec fn s_roots(&self) -> List<RootOperationTypeDefinition>; #[verifier::external_body] pub fn root_operation_type_definitions(&self) -> (r: &List<RootOperationTypeDefinition>) ensures *r == self.s_roots() { unimplemented!() }
    pub uninterp spec fn o_directives(&self) -> Option<List<Directive<true>>>; #[verifier::external_body] pub fn directives(&self) -> (r: Option<&List<Directive<true>>>) ensures is_opt(r, self.o_directives()) { unimplemented!() }
    pub uninterp spec fn s_description(&self) -> Option<Seq<char>>; #[verifier::external_body] pub fn description(&self) -> (r: Option<&str>) ensures match r { Some(x) => self.s_description() == Some(x@), None => self.s_description() is None } { unimplemented!() }
}
impl HasDirectives for ExplicitSchemaDefinition { open spec fn h_directives(&self) -> Option<List<Directive<true>>> { self.o_directives() } fn directives(&self) -> (r: Option<&List<Directive<true>>>) { ExplicitSchemaDefinition::directives(self) } }
//@item src=bluejay-parser/src/ast/definition/type_definition.rs name=TypeDefinition subst="< 'a , C : Context > ==> "
//@fn src=bluejay-parser/src/ast/definition/type_definition.rs impl=TypeDefinition fn=name header="impl TypeDefinition"
    ensures r@ == self.nm()
//@end
//@item src=bluejay-parser/src/ast/definition/definition_document/definition_document_error.rs name=DefinitionDocumentError prefix="#[allow(inconsistent_fields)]" subst="< 'a , C : Context > ==> < 'a >;;& 'a [ $x ] ==> & 'a Vec<$x>;;& 'a Directive ==> & 'a Directive<true>"
//@item src=bluejay-parser/src/ast/definition/definition_document.rs name=DefinitionDocument subst="< 'a , C : Context = DefaultContext > ==> "
pub mod spec { use super::*;
impl Named for TypeDefinition { open spec fn nm(&self) -> Seq<char> { match self { TypeDefinition::BuiltinScalar(t) => t.s_name(), TypeDefinition::CustomScalar(t) => t.s_name(), TypeDefinition::Object(t) => t.s_name(), TypeDefinition::InputObject(t) => t.s_name(), TypeDefinition::Enum(t) => t.s_name(), TypeDefinition::Union(t) => t.s_name(), TypeDefinition::Interface(t) => t.s_name() } } }
pub open spec fn is_in(t: TypeDefinition) -> bool { t is BuiltinScalar || t is CustomScalar || t is Enum || t is InputObject }
pub open spec fn is_out(t: TypeDefinition) -> bool { !(t is InputObject) }
pub type TM<'a> = Map<Seq<char>, &'a TypeDefinition>;
pub type DM<'a> = Map<Seq<char>, &'a DirectiveDefinition>;
// what is wrong with the parts of a definition
pub open spec fn bad_dirs(d: DM, s: Seq<Directive<true>>) -> bool { exists|i: int| 0 <= i < s.len() && !d.contains_key((#[trigger] s[i]).s_name()) }
pub open spec fn bad_in(m: TM, t: InputType) -> bool { !m.contains_key(ty_base(t.v())) || !is_in(*m[ty_base(t.v())]) }
pub open spec fn bad_out(m: TM, t: OutputType) -> bool { !m.contains_key(ty_base(t.v())) || !is_out(*m[ty_base(t.v())]) }
pub open spec fn bad_arg(m: TM, d: DM, x: InputValueDefinition) -> bool { bad_in(m, x.s_type_()) || bad_dirs(d, x.s_directives()) }
pub open spec fn bad_args(m: TM, d: DM, s: Seq<InputValueDefinition>) -> bool { exists|i: int| 0 <= i < s.len() && bad_arg(m, d, #[trigger] s[i]) }
pub open spec fn bad_field(m: TM, d: DM, x: FieldDefinition) -> bool { bad_out(m, x.s_type_()) || bad_args(m, d, x.s_arguments_definition()) || bad_dirs(d, x.s_directives()) }
pub open spec fn bad_fields(m: TM, d: DM, s: Seq<FieldDefinition>) -> bool { exists|i: int| 0 <= i < s.len() && bad_field(m, d, #[trigger] s[i]) }
pub open spec fn bad_ifaces(m: TM, s: Seq<InterfaceImplementation>) -> bool { exists|i: int| 0 <= i < s.len() && !(m.contains_key((#[trigger] s[i]).s_name()) && *m[s[i].s_name()] is Interface) }
pub open spec fn bad_members(m: TM, s: Seq<UnionMemberType>) -> bool { exists|i: int| 0 <= i < s.len() && !(m.contains_key((#[trigger] s[i]).s_name()) && *m[s[i].s_name()] is Object) }
pub open spec fn bad_values(d: DM, s: Seq<EnumValueDefinition>) -> bool { exists|i: int| 0 <= i < s.len() && bad_dirs(d, (#[trigger] s[i]).s_directives()) }
pub open spec fn bad_td(m: TM, d: DM, t: TypeDefinition) -> bool { match t {
    TypeDefinition::Object(o) => bad_fields(m, d, o.s_fields_definition()@) || bad_ifaces(m, o.s_interface_implementations()) || bad_dirs(d, o.s_directives()),
    TypeDefinition::Interface(o) => bad_fields(m, d, o.s_fields_definition()@) || bad_ifaces(m, o.s_interface_implementations()) || bad_dirs(d, o.s_directives()),
    TypeDefinition::Union(o) => bad_fields(m, d, o.s_fields_definition()@) || bad_members(m, o.s_union_member_types()@) || bad_dirs(d, o.s_directives()),
    TypeDefinition::InputObject(o) => bad_args(m, d, o.s_input_field_definitions()@) || bad_dirs(d, o.s_directives()),
    TypeDefinition::CustomScalar(o) => bad_dirs(d, o.s_directives()),
    TypeDefinition::Enum(o) => bad_dirs(d, o.s_directives()) || bad_values(d, o.s_enum_value_definitions()@),
    TypeDefinition::BuiltinScalar(_) => false } }
pub open spec fn bad_defs(m: TM, d: DM) -> bool { (exists|n: Seq<char>| #[trigger] m.contains_key(n) && bad_td(m, d, *m[n])) || (exists|n: Seq<char>| #[trigger] d.contains_key(n) && bad_args(m, d, d[n].s_arguments_definition())) }
// the index of the definitions by name
#[verifier::opaque] pub open spec fn ix<'a, T: Named>(m: Map<Seq<char>, &'a T>, s: Seq<T>) -> bool { (forall|n: Seq<char>| #[trigger] m.contains_key(n) <==> cnt(s, n) > 0) && (forall|n: Seq<char>| #[trigger] m.contains_key(n) ==> s.contains(*m[n]) && m[n].nm() == n) }
#[verifier::opaque] pub open spec fn dx<'a, T: Named>(m: Map<Seq<char>, Vec<&'a T>>, s: Seq<T>) -> bool { forall|n: Seq<char>| #[trigger] m.contains_key(n) <==> cnt(s, n) > 1 }
pub proof fn ix_none<'a, T: Named>(m: Map<Seq<char>, &'a T>, d: Map<Seq<char>, Vec<&'a T>>) requires m == Map::<Seq<char>, &'a T>::empty(), d == Map::<Seq<char>, Vec<&'a T>>::empty() ensures ix(m, Seq::<T>::empty()), dx(d, Seq::<T>::empty()) { reveal(ix); reveal(dx); }
pub broadcast proof fn by_name_keyed<'a, T: Named>(s: Seq<T>) ensures keyed(#[trigger] by_name::<T>(s)) { by_name_ix::<T>(s); reveal(ix); }
pub proof fn ix_push<'a, T: Named>(m: Map<Seq<char>, &'a T>, d: Map<Seq<char>, Vec<&'a T>>, s: Seq<T>, x: &'a T, m2: Map<Seq<char>, &'a T>, d2: Map<Seq<char>, Vec<&'a T>>)
    requires ix(m, s), dx(d, s), if m.contains_key(x.nm()) { m2 == m && exists|v: Vec<&'a T>| d2 == #[trigger] d.insert(x.nm(), v) } else { m2 == m.insert(x.nm(), x) && d2 == d }
    ensures ix(m2, s.push(*x)), dx(d2, s.push(*x)) {
    reveal(ix); reveal(dx); broadcast use {cnt_push, push_contains};
    assert(m.contains_key(x.nm()) <==> cnt(s, x.nm()) > 0);
}
pub open spec fn by_name<'a, T: Named>(s: Seq<T>) -> Map<Seq<char>, &'a T> decreases s.len() { if s.len() == 0 { Map::empty() } else { let b = by_name::<T>(s.drop_last()); if b.contains_key(s.last().nm()) { b } else { b.insert(s.last().nm(), &s.last()) } } }
pub proof fn by_name_ix<'a, T: Named>(s: Seq<T>) ensures ix(by_name::<T>(s), s) decreases s.len() {
    reveal(ix); broadcast use {cnt_push, push_contains};
    if s.len() > 0 { let d = s.drop_last(); by_name_ix::<T>(d); let x = s.last(); assert(s =~= d.push(x)); let b = by_name::<T>(d); assert(b.contains_key(x.nm()) <==> cnt(d, x.nm()) > 0);
        let c = by_name::<T>(s);
        assert forall|n: Seq<char>| #[trigger] c.contains_key(n) <==> cnt(s, n) > 0 by { assert(b.contains_key(n) <==> cnt(d, n) > 0); }
    }
}
pub broadcast proof fn ix_by_name<'a, T: Named>(m: Map<Seq<char>, &'a T>, s: Seq<T>) requires #[trigger] ix(m, s) ensures !dup(s) ==> m == by_name::<T>(s) {
    if dup(s) { return; } by_name_ix::<T>(s); reveal(ix); let b = by_name::<T>(s);
    assert forall|n: Seq<char>| #[trigger] m.contains_key(n) implies b.contains_key(n) && m[n] == b[n] by { assert(b.contains_key(n) <==> cnt(s, n) > 0);
        let i = choose|i: int| 0 <= i < s.len() && s[i] == *b[n]; let j = choose|j: int| 0 <= j < s.len() && s[j] == *m[n]; assert(s[i].nm() == s[j].nm()); assert(i == j); }
    assert forall|n: Seq<char>| #[trigger] b.contains_key(n) implies m.contains_key(n) by { assert(m.contains_key(n) <==> cnt(s, n) > 0); }
    assert(m =~= b);
}
// the root operation types
pub open spec fn roots(s: Seq<RootOperationTypeDefinition>, op: OperationType) -> Seq<RootOperationTypeDefinition> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.last().s_op() == op { roots(s.drop_last(), op).push(s.last()) } else { roots(s.drop_last(), op) } }
pub enum Root { Bad, Absent, Is(ObjectTypeDefinition) }
pub open spec fn named_root(m: TM, n: Seq<char>) -> Root { if !m.contains_key(n) { Root::Absent } else { match *m[n] { TypeDefinition::Object(o) => Root::Is(o), _ => Root::Bad } } }
pub open spec fn explicit_root(m: TM, q: Seq<RootOperationTypeDefinition>) -> Root { if q.len() == 0 { Root::Absent } else if q.len() > 1 { Root::Bad } else if named_root(m, q[0].s_name()) is Absent { Root::Bad } else { named_root(m, q[0].s_name()) } }
pub open spec fn root_opt(r: Root) -> Option<ObjectTypeDefinition> { match r { Root::Is(o) => Some(o), _ => None } }
pub open spec fn three(q: Root, mu: Root, su: Root) -> Option<(ObjectTypeDefinition, Option<ObjectTypeDefinition>, Option<ObjectTypeDefinition>)> { if q is Is && !(mu is Bad) && !(su is Bad) { Some((q->Is_0, root_opt(mu), root_opt(su))) } else { None } }
pub open spec fn explicit(m: TM, s: Seq<RootOperationTypeDefinition>) -> Option<(ObjectTypeDefinition, Option<ObjectTypeDefinition>, Option<ObjectTypeDefinition>)> { three(explicit_root(m, roots(s, OperationType::Query)), explicit_root(m, roots(s, OperationType::Mutation)), explicit_root(m, roots(s, OperationType::Subscription))) }
pub open spec fn implicit(m: TM) -> Option<(ObjectTypeDefinition, Option<ObjectTypeDefinition>, Option<ObjectTypeDefinition>)> { three(named_root(m, "Query"@), named_root(m, "Mutation"@), named_root(m, "Subscription"@)) }
pub open spec fn doc_roots(m: TM, s: Seq<ExplicitSchemaDefinition>) -> Option<(ObjectTypeDefinition, Option<ObjectTypeDefinition>, Option<ObjectTypeDefinition>)> { if s.len() == 0 { implicit(m) } else if s.len() == 1 { explicit(m, s[0].s_roots()@) } else { None } }
pub open spec fn bad_schema_dirs(d: DM, s: Seq<ExplicitSchemaDefinition>) -> bool { exists|i: int| 0 <= i < s.len() && bad_dirs(d, olist((#[trigger] s[i]).o_directives())) }
pub open spec fn well_formed(x: DefinitionDocument) -> bool { let m = by_name::<TypeDefinition>(x.type_definitions@); let d = by_name::<DirectiveDefinition>(x.directive_definitions@);
    !dup(x.type_definitions@) && !dup(x.directive_definitions@) && !bad_defs(m, d) && !bad_schema_dirs(d, x.schema_definitions@) && doc_roots(m, x.schema_definitions@) is Some }
pub open spec fn is_rotd(a: &RootOperationTypeDefinition, b: RootOperationTypeDefinition) -> bool { *a == b }
pub open spec fn is_root(a: Option<&ObjectTypeDefinition>, b: Root) -> bool { match a { Some(o) => b == Root::Is(*o), None => !(b is Is) } }
// the object types that say they implement an interface, by interface
pub open spec fn impls<'a>(h: Map<Seq<char>, Vec<&'a ObjectTypeDefinition>>, m: TM) -> bool { forall|n: Seq<char>, o: &'a ObjectTypeDefinition| #![trigger says(h, n, o)] says(h, n, o) <==> exists|k: Seq<char>| #[trigger] m.contains_key(k) && obj_impl(*m[k], n, *o) }
pub open spec fn says<'a>(h: Map<Seq<char>, Vec<&'a ObjectTypeDefinition>>, n: Seq<char>, o: &'a ObjectTypeDefinition) -> bool { h.contains_key(n) && h[n]@.contains(o) }
pub open spec fn obj_impl(t: TypeDefinition, n: Seq<char>, o: ObjectTypeDefinition) -> bool { t == TypeDefinition::Object(o) && named_in(o.s_interface_implementations(), n) }
pub open spec fn tref<'x>(t: TypeDefinition) -> TypeDefinitionReference<'x> { match t { TypeDefinition::BuiltinScalar(b) => TypeDefinitionReference::BuiltinScalar(b), TypeDefinition::CustomScalar(b) => TypeDefinitionReference::CustomScalar(&b), TypeDefinition::Object(b) => TypeDefinitionReference::Object(&b), TypeDefinition::InputObject(b) => TypeDefinitionReference::InputObject(&b), TypeDefinition::Enum(b) => TypeDefinitionReference::Enum(&b), TypeDefinition::Union(b) => TypeDefinitionReference::Union(&b), TypeDefinition::Interface(b) => TypeDefinitionReference::Interface(&b) } }
pub open spec fn lookup<'x>(m: TM, n: Seq<char>) -> Option<TypeDefinitionReference<'x>> { if m.contains_key(n) { Some(tref(*m[n])) } else { None } }
pub open spec fn keyed<'a, T: Named>(m: Map<Seq<char>, &'a T>) -> bool { forall|n: Seq<char>| #[trigger] m.contains_key(n) ==> m[n].nm() == n }
pub open spec fn trefs<'x>(a: Seq<TypeDefinitionReference<'x>>, s: Seq<&&TypeDefinition>, k: int) -> bool { a.len() == k && forall|i: int| 0 <= i < k ==> #[trigger] a[i] == tref(**s[i]) }
pub proof fn none_bad(m: TM, d: DM) ensures !bad_args(m, d, Seq::empty()), !bad_ifaces(m, Seq::empty()), !bad_dirs(d, Seq::empty()), !bad_fields(m, d, Seq::empty()) { }
pub broadcast proof fn trefs_first<'x, 'a>(a: Seq<TypeDefinitionReference<'x>>, s: Seq<&&'a TypeDefinition>, k: int, m: TM<'a>)
    requires #[trigger] trefs(a, s, k), #[trigger] vcovers(s, m), keyed(m), k == s.len()
    ensures forall|n: Seq<char>| #[trigger] first(a, n) == lookup(m, n) {
    assert forall|n: Seq<char>| #[trigger] first(a, n) == lookup(m, n) by {
        first_has(a, n);
        if m.contains_key(n) {
            let i = choose|i: int| 0 <= i < s.len() && *#[trigger] s[i] == m[n];
            assert(a[i] == tref(**s[i])); assert(a[i].nm() == n); assert(named_in(a, n));
        }
        if named_in(a, n) {
            let x = first(a, n)->0; let i = choose|i: int| 0 <= i < a.len() && a[i] == x;
            assert(a[i] == tref(**s[i])); let q = choose|q: Seq<char>| #[trigger] m.contains_key(q) && m[q] == *s[i];
            assert(tref(*m[q]).nm() == m[q].nm()); assert(q == n);
        }
    }
}
pub proof fn says_push<'a>(h: Map<Seq<char>, Vec<&'a ObjectTypeDefinition>>, n: Seq<char>, x: &'a ObjectTypeDefinition, v: Vec<&'a ObjectTypeDefinition>)
    requires v@ == (if h.contains_key(n) { h[n]@ } else { Seq::empty() }).push(x)
    ensures forall|m: Seq<char>, o: &'a ObjectTypeDefinition| #[trigger] says(h.insert(n, v), m, o) <==> says(h, m, o) || (m == n && o == x) { broadcast use {push_contains, empty_contains}; }
pub broadcast proof fn dx_covers<'a, T: Named>(d: Map<Seq<char>, Vec<&'a T>>, s: Seq<T>, q: Seq<(&'a str, Vec<&'a T>)>)
    requires #[trigger] dx(d, s), #[trigger] covers(q, d) ensures q.len() > 0 <==> dup(s) {
    reveal(dx); dup_cnt(s);
    if dup(s) { let n = choose|n: Seq<char>| #[trigger] dupn(s, n); cnt_dupn(s, n); assert(d.contains_key(n)); mcov(q, d, n); }
    if q.len() > 0 { let n = q[0].0@; assert(d.contains_key(n)); cnt_dupn(s, n); assert(dupn(s, n)); }
}
}
pub use spec::*;
pub mod docs { use super::*; broadcast use {vec_io_view, dflt_vec, dflt_btreemap, dflt_hashmap, dx_covers, ix_by_name, trefs_first};
//@item src=bluejay-core/src/definition/output_type.rs name=BaseOutputTypeReference subst="< 'a , O : OutputType > ==> < 'a >;;O :: $x ==> $x"
//@item src=bluejay-core/src/definition/input_type.rs name=BaseInputTypeReference subst="< 'a , T : InputType > ==> < 'a >;;T :: $x ==> $x"
pub struct BaseInputType {} pub struct BaseOutputType {}
//@fn src=bluejay-parser/src/ast/definition/input_type.rs impl=BaseInputType fn=core_type_from_type_definition header="impl BaseInputType" id=BaseInputType::core_type_from_type_definition
    ensures r is Ok <==> is_in(*$0)
//@ sig fn core_type_from_type_definition<'a>($0: &'a TypeDefinition) -> (r: Result<BaseInputTypeReference<'a>, ()>)
//@end
//@fn src=bluejay-parser/src/ast/definition/output_type.rs impl=BaseOutputType fn=core_type_from_type_definition header="impl BaseOutputType" id=BaseOutputType::core_type_from_type_definition
    ensures r is Ok <==> is_out(*$0)
//@ sig fn core_type_from_type_definition<'a>($0: &'a TypeDefinition) -> (r: Result<BaseOutputTypeReference<'a>, ()>)
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=index_type_definitions header="impl DefinitionDocument"
    ensures ix(r@, self.type_definitions@), grew(old($0)@, final($0)@, dup(self.type_definitions@))
//@ sig fn index_type_definitions<'a>(&'a self, $0: &mut Vec<DErr<'a>>) -> (r: BTreeMap<&'a str, &'a TypeDefinition>)
//@ subst indexed . entry $y ==> indexed . entry_of $y
//@ subst or_insert_with ( || vec ! $x ) ==> or_insert_ ( vec ! $x )
//@ subst entry . get ( ) ==> * entry . get ( )
//@ loop ~entry_of
@base
invariant ix(indexed@, $s.take($k)), dx(duplicates@, $s.take($k))
pre proof { ix_none::<TypeDefinition>(indexed@, duplicates@); assert($s.take(0) =~= Seq::<TypeDefinition>::empty()); assert($s.take($s.len() as int) =~= $s); }
//@ at loop ~entry_of start
let ghost __i = indexed@; let ghost __d = duplicates@;
//@ at loop ~entry_of end
proof { let x = &$s[$k - 1]; if __i.contains_key(x.nm()) { let v = duplicates@[x.nm()]; assert(duplicates@ == __d.insert(x.nm(), v)); } ix_push(__i, __d, $s.take($k - 1), x, indexed@, duplicates@); assert($s.take($k) =~= $s.take($k - 1).push(*x)); }
//@ loop ~DuplicateTypeDefinitions
@base
invariant $0@.len() == old($0)@.len() + $k
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=index_directive_definitions header="impl DefinitionDocument"
    ensures ix(r@, self.directive_definitions@), grew(old($0)@, final($0)@, dup(self.directive_definitions@))
//@ sig fn index_directive_definitions<'a>(&'a self, $0: &mut Vec<DErr<'a>>) -> (r: BTreeMap<&'a str, &'a DirectiveDefinition>)
//@ subst indexed . entry $y ==> indexed . entry_of $y
//@ subst or_insert_with ( || vec ! $x ) ==> or_insert_ ( vec ! $x )
//@ subst entry . get ( ) ==> * entry . get ( )
//@ loop ~entry_of
@base
invariant ix(indexed@, $s.take($k)), dx(duplicates@, $s.take($k))
pre proof { ix_none::<DirectiveDefinition>(indexed@, duplicates@); assert($s.take(0) =~= Seq::<DirectiveDefinition>::empty()); assert($s.take($s.len() as int) =~= $s); }
//@ at loop ~entry_of start
let ghost __i = indexed@; let ghost __d = duplicates@;
//@ at loop ~entry_of end
proof { let x = &$s[$k - 1]; if __i.contains_key(x.nm()) { let v = duplicates@[x.nm()]; assert(duplicates@ == __d.insert(x.nm(), v)); } ix_push(__i, __d, $s.take($k - 1), x, indexed@, duplicates@); assert($s.take($k) =~= $s.take($k - 1).push(*x)); }
//@ loop ~DuplicateDirectiveDefinitions
@base
invariant $0@.len() == old($0)@.len() + $k
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=resolve_directive_definitions header="impl DefinitionDocument"
    ensures grew(old($2)@, final($2)@, bad_dirs($0@, olist($1.h_directives())))
//@ sig fn resolve_directive_definitions<'a, X: HasDirectives>($0: &BTreeMap<&str, &'a DirectiveDefinition>, $1: &'a X, $2: &mut Vec<DErr<'a>>)
//@ loop ~ReferencedDirectiveDoesNotExist
@base
@grow $2 x: !$0@.contains_key(x.s_name())
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=resolve_input_types_and_directives header="impl DefinitionDocument"
    ensures grew(old($3)@, final($3)@, bad_args($0@, $1@, $2@))
//@ sig fn resolve_input_types_and_directives<'a>($0: &BTreeMap<&str, &'a TypeDefinition>, $1: &BTreeMap<&str, &'a DirectiveDefinition>, $2: It<'a, InputValueDefinition>, $3: &mut Vec<DErr<'a>>)
//@ rtype var:$2=iter
//@ loop ~ReferencedTypeIsNotAnInputType
@base
@grow $3 x: bad_arg($0@, $1@, x)
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=resolve_interface_implementations header="impl DefinitionDocument"
    ensures grew(old($2)@, final($2)@, bad_ifaces($0@, $1@))
//@ sig fn resolve_interface_implementations<'a>($0: &BTreeMap<&str, &'a TypeDefinition>, $1: &'a List<InterfaceImplementation>, $2: &mut Vec<DErr<'a>>)
//@ loop ~ReferencedTypeIsNotAnInterface
@base
@grow $2 x: !($0@.contains_key(x.s_name()) && *$0@[x.s_name()] is Interface)
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=resolve_fields_definition_types_and_directives header="impl DefinitionDocument"
    ensures grew(old($3)@, final($3)@, bad_fields($0@, $1@, $2@))
//@ sig fn resolve_fields_definition_types_and_directives<'a>($0: &BTreeMap<&str, &'a TypeDefinition>, $1: &BTreeMap<&str, &'a DirectiveDefinition>, $2: &'a List<FieldDefinition>, $3: &mut Vec<DErr<'a>>)
//@ loop ~ReferencedTypeIsNotAnOutputType
@base
@grow $3 x: bad_field($0@, $1@, x)
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=resolve_type_and_directive_definitions header="impl DefinitionDocument"
    ensures grew(old($2)@, final($2)@, bad_defs($0@, $1@))
//@ sig fn resolve_type_and_directive_definitions<'a>($0: &BTreeMap<&str, &'a TypeDefinition>, $1: &BTreeMap<&str, &'a DirectiveDefinition>, $2: &mut Vec<DErr<'a>>)
//@ loop ~resolve_fields_definition_types_and_directives
@base
@grow $2 x: bad_td($0@, $1@, **x)
//@ loop ~ReferencedUnionMemberTypeIsNotAnObject
@base
@grow $2 x: !($0@.contains_key(x.s_name()) && *$0@[x.s_name()] is Object)
//@ loop ~resolve_directive_definitions !resolve_fields_definition_types_and_directives
@base
@grow $2 x: bad_dirs($1@, x.s_directives())
//@ loop ~arguments_definition
@base
@grow $2 x: bad_args($0@, $1@, (**x).s_arguments_definition())
//@ at start
hide(bad_args); hide(bad_fields); hide(bad_ifaces); hide(bad_dirs);
proof { none_bad($0@, $1@); }
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=implicit_root_operation_type header="impl DefinitionDocument"
    ensures is_root(r, named_root($1@, $0@)), grew(old($2)@, final($2)@, named_root($1@, $0@) is Bad)
//@ sig fn implicit_root_operation_type<'a>($0: &str, $1: &BTreeMap<&str, &'a TypeDefinition>, $2: &mut Vec<DErr<'a>>) -> (r: Option<&'a ObjectTypeDefinition>)
//@end
//@item src=bluejay-parser/src/ast/definition/definition_document.rs name=ImplicitSchemaDefinition subst="< 'a , C : Context > ==> < 'a >"
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=implicit_schema_definition header="impl DefinitionDocument"
    ensures match r { Ok(Some(x)) => implicit($0@) == Some((*x.query, match x.mutation { Some(o) => Some(*o), None => None }, match x.subscription { Some(o) => Some(*o), None => None })), _ => implicit($0@) is None }
//@ sig fn implicit_schema_definition<'a>($0: &BTreeMap<&str, &'a TypeDefinition>) -> (r: Result<Option<ImplicitSchemaDefinition<'a>>, Vec<DErr<'a>>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=explicit_operation_type_definition header="impl DefinitionDocument"
    ensures match r { Ok(x) => is_root(x, explicit_root($2@, roots($1.s_roots()@, $0))) && !(explicit_root($2@, roots($1.s_roots()@, $0)) is Bad), Err(_) => explicit_root($2@, roots($1.s_roots()@, $0)) is Bad }
//@ sig fn explicit_operation_type_definition<'a>($0: OperationType, $1: &'a ExplicitSchemaDefinition, $2: &BTreeMap<&str, &'a TypeDefinition>) -> (r: Result<Option<&'a ObjectTypeDefinition>, DErr<'a>>)
//@ loop 0
@base
invariant $acc@.len() == roots($s.take($k), $0).len(), forall|i: int| 0 <= i < $acc@.len() ==> is_rotd(#[trigger] $acc@[i], roots($s.take($k), $0)[i])
pre proof { assert($s.take(0) =~= Seq::<RootOperationTypeDefinition>::empty()); assert($s.take($s.len() as int) =~= $s); }
//@ at loop 0 end
proof { assert($s.take($k).drop_last() =~= $s.take($k - 1)); }
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=DefinitionDocument fn=explicit_schema_definition header="impl DefinitionDocument"
    ensures self.schema_definitions@.len() == 0 ==> r is Ok && r->Ok_0 is None,
        self.schema_definitions@.len() > 0 ==> match r { Ok(Some((x, q, mu, su))) => self.schema_definitions@.len() == 1 && *x == self.schema_definitions@[0] && explicit($0@, x.s_roots()@) == Some((*q, match mu { Some(o) => Some(*o), None => None }, match su { Some(o) => Some(*o), None => None })), Ok(None) => false, Err(_) => doc_roots($0@, self.schema_definitions@) is None }
//@ sig fn explicit_schema_definition<'a>(&'a self, $0: &BTreeMap<&str, &'a TypeDefinition>) -> (r: Result<Option<(&'a ExplicitSchemaDefinition, &'a ObjectTypeDefinition, Option<&'a ObjectTypeDefinition>, Option<&'a ObjectTypeDefinition>)>, Vec<DErr<'a>>>)
//@end
//@item src=bluejay-parser/src/ast/definition/schema_definition.rs name=SchemaDefinition subst="SchemaDefinition ==> PSchema;;< 'a , C : Context = DefaultContext > ==> < 'a >;;& 'a StringValue < 'a > ==> & 'a str"
//@fn src=bluejay-parser/src/ast/definition/schema_definition.rs impl=SchemaDefinition fn=new header="impl<'a> PSchema<'a>" id=PSchema::new
    ensures r.type_definitions == $0, r.directive_definitions == $1, r.description == $2, r.query == $3, r.mutation == $4, r.subscription == $5, r.directives == $6, impls(r.interface_implementors@, $0@)
//@ sig fn new($0: BTreeMap<&'a str, &'a TypeDefinition>, $1: BTreeMap<&'a str, &'a DirectiveDefinition>, $2: Option<&'a str>, $3: &'a ObjectTypeDefinition, $4: Option<&'a ObjectTypeDefinition>, $5: Option<&'a ObjectTypeDefinition>, $6: Option<&'a List<Directive<true>>>) -> (r: Self)
//@end
//@fn src=bluejay-parser/src/ast/definition/schema_definition.rs impl=SchemaDefinition fn=interface_implementors header="impl<'a> PSchema<'a>"
    ensures impls(r@, $0@)
//@ sig fn interface_implementors($0: &BTreeMap<&'a str, &'a TypeDefinition>) -> (r: HashMap<&'a str, Vec<&'a ObjectTypeDefinition>>)
//@ subst HashMap :: new ( ) ==> HashMap :: < & 'a str , Vec < & 'a ObjectTypeDefinition > > :: new ( )
//@ loop ~interface_implementations
@base
invariant forall|n: Seq<char>, o: &'a ObjectTypeDefinition| #![trigger says($acc@, n, o)] says($acc@, n, o) <==> exists|j: int| #![trigger $s[j]] 0 <= j < $k && obj_impl(**$s[j], n, *o)
//@ loop ~or_default !interface_implementations
@base
invariant forall|n: Seq<char>, o: &'a ObjectTypeDefinition| #![trigger says($facc@, n, o)] says($facc@, n, o) <==> says($p, n, o) || (TypeDefinition::Object(*o) == **$up && exists|j: int| 0 <= j < $k && (#[trigger] $s[j]).s_name() == n)
pre let ghost $p = $facc@;
//@ at loop ~or_default !interface_implementations start
let ghost __h = $facc@;
//@ at loop ~or_default !interface_implementations end
proof { let n = $s[$k - 1].s_name(); let x = &(**$up)->Object_0; says_push(__h, n, x, $facc@[n]); assert($facc@ =~= __h.insert(n, $facc@[n])); }
//@end
//@fn src=bluejay-parser/src/ast/definition/definition_document.rs impl=TryFrom:SchemaDefinition fn=try_from header="impl<'a> PSchema<'a>"
    ensures r is Ok <==> well_formed(*$0),
        r is Ok ==> r->Ok_0.type_definitions@ == by_name::<TypeDefinition>($0.type_definitions@) && r->Ok_0.directive_definitions@ == by_name::<DirectiveDefinition>($0.directive_definitions@)
            && doc_roots(r->Ok_0.type_definitions@, $0.schema_definitions@) == Some((*r->Ok_0.query, match r->Ok_0.mutation { Some(o) => Some(*o), None => None }, match r->Ok_0.subscription { Some(o) => Some(*o), None => None }))
//@ sig fn try_from($0: &'a DefinitionDocument) -> (r: Result<Self, Vec<DErr<'a>>>)
//@ loop ~resolve_directive_definitions
@base
@grow errors x: bad_dirs(indexed_directive_definitions@, olist(x.o_directives()))
//@end
//@fn src=bluejay-parser/src/ast/definition/type_definition.rs impl=CoreTypeDefinition:TypeDefinition fn=as_ref header="impl TypeDefinition" id=TypeDefinition::as_ref
    ensures r == tref(*self)
//@ sig fn as_ref(&self) -> (r: TypeDefinitionReference<'_>)
//@end
// what the schema then answers: the trait accessors every other unit assumes
//@fn src=bluejay-parser/src/ast/definition/schema_definition.rs impl=CoreSchemaDefinition:SchemaDefinition header="impl<'a> PSchema<'a>" fn=get_type_definition id=PSchema::get_type_definition
    ensures r == lookup(self.type_definitions@, $0@)
//@ sig fn get_type_definition(&self, $0: &str) -> (r: Option<TypeDefinitionReference<'a>>)
//@ method as_ref/0 ==> $self.as_ref()
//@end
//@fn src=bluejay-parser/src/ast/definition/schema_definition.rs impl=CoreSchemaDefinition:SchemaDefinition header="impl<'a> PSchema<'a>" fn=type_definitions id=PSchema::type_definitions retiter
    ensures keyed(self.type_definitions@) ==> forall|n: Seq<char>| #[trigger] first(r@, n) == lookup(self.type_definitions@, n)
//@ sig fn type_definitions(&self) -> (r: ItV<TypeDefinitionReference<'a>>)
//@ method as_ref/0 ==> $self.as_ref()
//@ loop 0
@base
invariant trefs($acc@, $s, $k)
//@end
//@fn src=bluejay-parser/src/ast/definition/schema_definition.rs impl=CoreSchemaDefinition:SchemaDefinition header="impl<'a> PSchema<'a>" fn=get_directive_definition id=PSchema::get_directive_definition
    ensures r == (if self.directive_definitions@.contains_key($0@) { Some(self.directive_definitions@[$0@]) } else { None })
//@ sig fn get_directive_definition(&self, $0: &str) -> (r: Option<&'a DirectiveDefinition>)
//@end
//@fn src=bluejay-parser/src/ast/definition/schema_definition.rs impl=CoreSchemaDefinition:SchemaDefinition header="impl<'a> PSchema<'a>" fn=get_interface_implementors id=PSchema::get_interface_implementors retiter
    ensures forall|o: &'a ObjectTypeDefinition| #[trigger] r@.contains(o) <==> says(self.interface_implementors@, $0.s_name(), o)
//@ sig fn get_interface_implementors(&self, $0: &InterfaceTypeDefinition) -> (r: ItV<&'a ObjectTypeDefinition>)
//@ loop 0
@base
invariant $s.len() <= 1, $k == 0 ==> $acc@ =~= Seq::<&'a ObjectTypeDefinition>::empty(), $k == 1 ==> $acc@ =~= (*$s[0])@
//@ loop 1
@base
@append acc
//@ at start
broadcast use {idx_contains, opt_io_view};
//@end
//@fn src=bluejay-parser/src/ast/definition/schema_definition.rs impl=CoreSchemaDefinition:SchemaDefinition header="impl<'a> PSchema<'a>" fn=query id=PSchema::query
    ensures r == self.query
//@ sig fn query(&self) -> (r: &'a ObjectTypeDefinition)
//@end
//@fn src=bluejay-parser/src/ast/definition/schema_definition.rs impl=CoreSchemaDefinition:SchemaDefinition header="impl<'a> PSchema<'a>" fn=mutation id=PSchema::mutation
    ensures r == self.mutation
//@ sig fn mutation(&self) -> (r: Option<&'a ObjectTypeDefinition>)
//@end
//@fn src=bluejay-parser/src/ast/definition/schema_definition.rs impl=CoreSchemaDefinition:SchemaDefinition header="impl<'a> PSchema<'a>" fn=subscription id=PSchema::subscription
    ensures r == self.subscription
//@ sig fn subscription(&self) -> (r: Option<&'a ObjectTypeDefinition>)
//@end
}
}
fn main() {}
