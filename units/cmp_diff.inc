#[allow(inconsistent_fields)]
#[verifier::ext_equal]
pub enum ChangeV<'a> {
    TypeRemoved { t: TypeDefinitionReference<'a> },
    TypeAdded { t: TypeDefinitionReference<'a> },
    TypeKindChanged { t: TypeDefinitionReference<'a>, u: TypeDefinitionReference<'a> },
    TypeDescriptionChanged { t: TypeDefinitionReference<'a>, u: TypeDefinitionReference<'a> },
    FieldAdded { ctx: Seq<char>, f: FieldDefinition },
    FieldRemoved { ctx: Seq<char>, f: FieldDefinition },
    FieldDescriptionChanged { ctx: Seq<char>, f: FieldDefinition, g: FieldDefinition },
    FieldTypeChanged { ctx: Seq<char>, f: FieldDefinition, g: FieldDefinition },
    FieldArgumentAdded { ctx: Seq<char>, fd: Seq<char>, a: InputValueDefinition },
    FieldArgumentRemoved { ctx: Seq<char>, fd: Seq<char>, a: InputValueDefinition },
    FieldArgumentDescriptionChanged { ctx: Seq<char>, fd: Seq<char>, a: InputValueDefinition, b: InputValueDefinition },
    FieldArgumentDefaultValueChanged { ctx: Seq<char>, fd: Seq<char>, a: InputValueDefinition, b: InputValueDefinition },
    FieldArgumentTypeChanged { ctx: Seq<char>, fd: Seq<char>, a: InputValueDefinition, b: InputValueDefinition },
    ObjectInterfaceAddition { ctx: Seq<char>, i: InterfaceImplementation },
    ObjectInterfaceRemoval { ctx: Seq<char>, i: InterfaceImplementation },
    EnumValueAdded { ctx: Seq<char>, e: EnumValueDefinition },
    EnumValueRemoved { ctx: Seq<char>, e: EnumValueDefinition },
    EnumValueDescriptionChanged { ctx: Seq<char>, e: EnumValueDefinition, g: EnumValueDefinition },
    UnionMemberAdded { ctx: Seq<char>, m: UnionMemberType },
    UnionMemberRemoved { ctx: Seq<char>, m: UnionMemberType },
    InputFieldAdded { ctx: Seq<char>, a: InputValueDefinition },
    InputFieldRemoved { ctx: Seq<char>, a: InputValueDefinition },
    InputFieldDescriptionChanged { ctx: Seq<char>, a: InputValueDefinition, b: InputValueDefinition },
    InputFieldTypeChanged { ctx: Seq<char>, a: InputValueDefinition, b: InputValueDefinition },
    InputFieldDefaultValueChanged { ctx: Seq<char>, a: InputValueDefinition, b: InputValueDefinition },
    DirectiveDefinitionAdded { d: DirectiveDefinition },
    DirectiveDefinitionRemoved { d: DirectiveDefinition },
    DirectiveDefinitionLocationAdded { ctx: Seq<char>, l: DirectiveLocation },
    DirectiveDefinitionLocationRemoved { ctx: Seq<char>, l: DirectiveLocation },
    DirectiveDefinitionDescriptionChanged { d: DirectiveDefinition, e: DirectiveDefinition },
    DirectiveDefinitionArgumentAdded { ctx: Seq<char>, a: InputValueDefinition },
    DirectiveDefinitionArgumentRemoved { ctx: Seq<char>, a: InputValueDefinition },
    DirectiveDefinitionArgumentDescriptionChanged { ctx: Seq<char>, a: InputValueDefinition, b: InputValueDefinition },
    DirectiveDefinitionArgumentDefaultValueChanged { ctx: Seq<char>, a: InputValueDefinition, b: InputValueDefinition },
    DirectiveDefinitionArgumentTypeChanged { ctx: Seq<char>, a: InputValueDefinition, b: InputValueDefinition },
    DirectiveAdded { loc: DirectiveLocation, ctx: Seq<char>, d: Directive<true> },
    DirectiveRemoved { loc: DirectiveLocation, ctx: Seq<char>, d: Directive<true> },
    DirectiveArgumentAdded { ctx: Seq<char>, x: Argument<true> },
    DirectiveArgumentRemoved { ctx: Seq<char>, x: Argument<true> },
    DirectiveArgumentValueChanged { ctx: Seq<char>, x: Argument<true>, y: Argument<true> },
}
impl<'a> Change<'a> { pub open spec fn v(&self) -> ChangeV<'a> { match self {
        Change::TypeRemoved { removed_type_definition } => ChangeV::TypeRemoved { t: *removed_type_definition },
        Change::TypeAdded { added_type_definition } => ChangeV::TypeAdded { t: *added_type_definition },
        Change::TypeKindChanged { old_type_definition, new_type_definition } => ChangeV::TypeKindChanged { t: *old_type_definition, u: *new_type_definition },
        Change::TypeDescriptionChanged { old_type_definition, new_type_definition } => ChangeV::TypeDescriptionChanged { t: *old_type_definition, u: *new_type_definition },
        Change::FieldAdded { type_name, added_field_definition } => ChangeV::FieldAdded { ctx: type_name@, f: **added_field_definition },
        Change::FieldRemoved { type_name, removed_field_definition } => ChangeV::FieldRemoved { ctx: type_name@, f: **removed_field_definition },
        Change::FieldDescriptionChanged { type_name, old_field_definition, new_field_definition } => ChangeV::FieldDescriptionChanged { ctx: type_name@, f: **old_field_definition, g: **new_field_definition },
        Change::FieldTypeChanged { type_name, old_field_definition, new_field_definition } => ChangeV::FieldTypeChanged { ctx: type_name@, f: **old_field_definition, g: **new_field_definition },
        Change::FieldArgumentAdded { type_name, field_definition, argument_definition } => ChangeV::FieldArgumentAdded { ctx: type_name@, fd: field_definition.s_name(), a: **argument_definition },
        Change::FieldArgumentRemoved { type_name, field_definition, argument_definition } => ChangeV::FieldArgumentRemoved { ctx: type_name@, fd: field_definition.s_name(), a: **argument_definition },
        Change::FieldArgumentDescriptionChanged { type_name, field_definition, old_argument_definition, new_argument_definition } => ChangeV::FieldArgumentDescriptionChanged { ctx: type_name@, fd: field_definition.s_name(), a: **old_argument_definition, b: **new_argument_definition },
        Change::FieldArgumentDefaultValueChanged { type_name, field_definition, old_argument_definition, new_argument_definition } => ChangeV::FieldArgumentDefaultValueChanged { ctx: type_name@, fd: field_definition.s_name(), a: **old_argument_definition, b: **new_argument_definition },
        Change::FieldArgumentTypeChanged { type_name, field_definition, old_argument_definition, new_argument_definition } => ChangeV::FieldArgumentTypeChanged { ctx: type_name@, fd: field_definition.s_name(), a: **old_argument_definition, b: **new_argument_definition },
        Change::ObjectInterfaceAddition { object_type_definition, interface_implementation } => ChangeV::ObjectInterfaceAddition { ctx: object_type_definition.s_name(), i: **interface_implementation },
        Change::ObjectInterfaceRemoval { object_type_definition, interface_implementation } => ChangeV::ObjectInterfaceRemoval { ctx: object_type_definition.s_name(), i: **interface_implementation },
        Change::EnumValueAdded { enum_type_definition, enum_value_definition } => ChangeV::EnumValueAdded { ctx: enum_type_definition.s_name(), e: **enum_value_definition },
        Change::EnumValueRemoved { enum_type_definition, enum_value_definition } => ChangeV::EnumValueRemoved { ctx: enum_type_definition.s_name(), e: **enum_value_definition },
        Change::EnumValueDescriptionChanged { enum_type_definition, old_enum_value_definition, new_enum_value_definition } => ChangeV::EnumValueDescriptionChanged { ctx: enum_type_definition.s_name(), e: **old_enum_value_definition, g: **new_enum_value_definition },
        Change::UnionMemberAdded { union_type_definition, union_member_type } => ChangeV::UnionMemberAdded { ctx: union_type_definition.s_name(), m: **union_member_type },
        Change::UnionMemberRemoved { union_type_definition, union_member_type } => ChangeV::UnionMemberRemoved { ctx: union_type_definition.s_name(), m: **union_member_type },
        Change::InputFieldAdded { input_object_type_definition, added_field_definition } => ChangeV::InputFieldAdded { ctx: input_object_type_definition.s_name(), a: **added_field_definition },
        Change::InputFieldRemoved { input_object_type_definition, removed_field_definition } => ChangeV::InputFieldRemoved { ctx: input_object_type_definition.s_name(), a: **removed_field_definition },
        Change::InputFieldDescriptionChanged { input_object_type_definition, old_field_definition, new_field_definition } => ChangeV::InputFieldDescriptionChanged { ctx: input_object_type_definition.s_name(), a: **old_field_definition, b: **new_field_definition },
        Change::InputFieldTypeChanged { input_object_type_definition, old_field_definition, new_field_definition } => ChangeV::InputFieldTypeChanged { ctx: input_object_type_definition.s_name(), a: **old_field_definition, b: **new_field_definition },
        Change::InputFieldDefaultValueChanged { input_object_type_definition, old_field_definition, new_field_definition } => ChangeV::InputFieldDefaultValueChanged { ctx: input_object_type_definition.s_name(), a: **old_field_definition, b: **new_field_definition },
        Change::DirectiveDefinitionAdded { directive_definition } => ChangeV::DirectiveDefinitionAdded { d: **directive_definition },
        Change::DirectiveDefinitionRemoved { directive_definition } => ChangeV::DirectiveDefinitionRemoved { d: **directive_definition },
        Change::DirectiveDefinitionLocationAdded { directive_definition, location } => ChangeV::DirectiveDefinitionLocationAdded { ctx: directive_definition.s_name(), l: **location },
        Change::DirectiveDefinitionLocationRemoved { directive_definition, location } => ChangeV::DirectiveDefinitionLocationRemoved { ctx: directive_definition.s_name(), l: **location },
        Change::DirectiveDefinitionDescriptionChanged { old_directive_definition, new_directive_definition } => ChangeV::DirectiveDefinitionDescriptionChanged { d: **old_directive_definition, e: **new_directive_definition },
        Change::DirectiveDefinitionArgumentAdded { directive_definition, argument_definition } => ChangeV::DirectiveDefinitionArgumentAdded { ctx: directive_definition.s_name(), a: **argument_definition },
        Change::DirectiveDefinitionArgumentRemoved { directive_definition, argument_definition } => ChangeV::DirectiveDefinitionArgumentRemoved { ctx: directive_definition.s_name(), a: **argument_definition },
        Change::DirectiveDefinitionArgumentDescriptionChanged { directive_definition, old_argument_definition, new_argument_definition } => ChangeV::DirectiveDefinitionArgumentDescriptionChanged { ctx: directive_definition.s_name(), a: **old_argument_definition, b: **new_argument_definition },
        Change::DirectiveDefinitionArgumentDefaultValueChanged { directive_definition, old_argument_definition, new_argument_definition } => ChangeV::DirectiveDefinitionArgumentDefaultValueChanged { ctx: directive_definition.s_name(), a: **old_argument_definition, b: **new_argument_definition },
        Change::DirectiveDefinitionArgumentTypeChanged { directive_definition, old_argument_definition, new_argument_definition } => ChangeV::DirectiveDefinitionArgumentTypeChanged { ctx: directive_definition.s_name(), a: **old_argument_definition, b: **new_argument_definition },
        Change::DirectiveAdded { location, member_name, directive } => ChangeV::DirectiveAdded { loc: *location, ctx: member_name@, d: **directive },
        Change::DirectiveRemoved { location, member_name, directive } => ChangeV::DirectiveRemoved { loc: *location, ctx: member_name@, d: **directive },
        Change::DirectiveArgumentAdded { directive, argument } => ChangeV::DirectiveArgumentAdded { ctx: directive.s_name(), x: **argument },
        Change::DirectiveArgumentRemoved { directive, argument } => ChangeV::DirectiveArgumentRemoved { ctx: directive.s_name(), x: **argument },
        Change::DirectiveArgumentValueChanged { directive, old_argument, new_argument } => ChangeV::DirectiveArgumentValueChanged { ctx: directive.s_name(), x: **old_argument, y: **new_argument },
    } } }
pub open spec fn hasc<'a>(s: Seq<Change<'a>>, c: ChangeV<'a>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).v() == c }
pub broadcast proof fn hasc_push<'a>(s: Seq<Change<'a>>, x: Change<'a>, c: ChangeV<'a>) ensures #[trigger] hasc(s.push(x), c) <==> hasc(s, c) || c == x.v() {
    if hasc(s, c) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).v() == c; assert(s.push(x)[i].v() == c); }
    if c == x.v() { assert(s.push(x)[s.len() as int].v() == c); }
}
pub broadcast proof fn hasc_add<'a>(a: Seq<Change<'a>>, b: Seq<Change<'a>>, c: ChangeV<'a>) ensures #[trigger] hasc(a + b, c) <==> hasc(a, c) || hasc(b, c) {
    if hasc(a, c) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).v() == c; assert((a + b)[i].v() == c); }
    if hasc(b, c) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).v() == c; assert((a + b)[a.len() + i].v() == c); }
    if hasc(a + b, c) { let i = choose|i: int| 0 <= i < (a + b).len() && (#[trigger] (a + b)[i]).v() == c; if i < a.len() { assert(a[i].v() == c); } else { assert(b[i - a.len()].v() == c); } }
}
pub broadcast proof fn hasc_empty<'a>(c: ChangeV<'a>) ensures !(#[trigger] hasc(Seq::<Change<'a>>::empty(), c)) { }
pub broadcast group hasc_lemmas { hasc_push, hasc_add, hasc_empty }
pub mod cmp { use super::*;
broadcast use {base_lemmas, hasc_lemmas};
//@subst directive_additions :: < S , _ > ==> directive_additions
//@subst directive_removals :: < S , _ > ==> directive_removals
//@subst directive_additions :: < 'a , S , _ > ==> directive_additions
//@subst directive_removals :: < 'a , S , _ > ==> directive_removals
//@subst < S as SchemaDefinition > :: Directive ==> Directive < true >
//@subst < S as SchemaDefinition > :: $x ==> $x
//@subst ArgumentForDirective < S > ==> Argument < true >
//@subst Change < 'a , S > ==> Change < 'a >
//@method not/0 ==> !($self)
//@method into_iter/0 ==> into_it($self)
//@rtype arguments=opt arguments_definition=opt directives=opt interface_implementations=opt get=opt get_type_definition=opt get_directive_definition=opt
//@rtype directive_additions=iter directive_removals=iter common_directive_changes=iter argument_additions=iter argument_removals=iter location_additions=iter location_removals=iter field_additions=iter field_removals=iter interface_additions=iter interface_removals=iter value_additions=iter value_removals=iter member_additions=iter member_removals=iter input_field_additions=iter input_field_removals=iter removed_types=iter added_types=iter removed_directive_definitions=iter added_directive_definitions=iter type_definitions=iter directive_definitions=iter
//@known new diff
#[verifier::inline]
pub open spec fn dv(a: Value<true>, b: Value<true>) -> bool { veq(a, b) }
#[verifier::opaque]
pub open spec fn dir_has<'a>(o: Directive<true>, n: Directive<true>, c: ChangeV<'a>) -> bool { match c {
    ChangeV::DirectiveArgumentAdded { ctx, x } => ctx == n.s_name() && n.s_arguments().contains(x) && !named_in(o.s_arguments(), x.s_name()),
    ChangeV::DirectiveArgumentRemoved { ctx, x } => ctx == o.s_name() && o.s_arguments().contains(x) && !named_in(n.s_arguments(), x.s_name()),
    ChangeV::DirectiveArgumentValueChanged { ctx, x, y } => ctx == o.s_name() && o.s_arguments().contains(x) && first(n.s_arguments(), x.s_name()) == Some(y) && !veq(x.s_value(), y.s_value()),
    _ => false } }
// changes of the directives applied to an element called `m` at a `loc` location
pub open spec fn dirs_has<'a>(o: Seq<Directive<true>>, n: Seq<Directive<true>>, loc: DirectiveLocation, m: Seq<char>, c: ChangeV<'a>) -> bool {
    (c is DirectiveAdded && c->DirectiveAdded_loc == loc && c->DirectiveAdded_ctx == m && n.contains(c->DirectiveAdded_d) && !named_in(o, c->DirectiveAdded_d.s_name()))
    || (c is DirectiveRemoved && c->DirectiveRemoved_loc == loc && c->DirectiveRemoved_ctx == m && o.contains(c->DirectiveRemoved_d) && !named_in(n, c->DirectiveRemoved_d.s_name()))
    || common_dirs_has(o, n, c) }
pub open spec fn common_dirs_has<'a>(o: Seq<Directive<true>>, n: Seq<Directive<true>>, c: ChangeV<'a>) -> bool {
    exists|i: int| 0 <= i < o.len() && first(n, (#[trigger] o[i]).s_name()) is Some && dir_has(o[i], first(n, o[i].s_name())->0, c) }
//@item src=bluejay-schema-comparator/src/diff/directive.rs name=DirectiveDiff subst="< 'a , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-schema-comparator/src/diff/directive.rs impl=DirectiveDiff fn=new header="impl<'a> DirectiveDiff<'a>"
    ensures r.old_directive == $0, r.new_directive == $1
//@end
//@fn src=bluejay-schema-comparator/src/diff/directive.rs impl=DirectiveDiff header="impl<'a> DirectiveDiff<'a>" fn=argument_additions
    ensures forall|x: &Argument<true>| #![trigger r@.contains(x)] #![trigger self.new_directive.s_arguments().contains(*x)] r@.contains(x) <==> self.new_directive.s_arguments().contains(*x) && !named_in(self.old_directive.s_arguments(), x.s_name())
//@ sig fn argument_additions(&self) -> (r: ItV<&'a Argument<true>>)
//@ loop ~push
@push acc z: !named_in(self.old_directive.s_arguments(), z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/directive.rs impl=DirectiveDiff header="impl<'a> DirectiveDiff<'a>" fn=argument_removals
    ensures forall|x: &Argument<true>| #![trigger r@.contains(x)] #![trigger self.old_directive.s_arguments().contains(*x)] r@.contains(x) <==> self.old_directive.s_arguments().contains(*x) && !named_in(self.new_directive.s_arguments(), x.s_name())
//@ sig fn argument_removals(&self) -> (r: ItV<&'a Argument<true>>)
//@ loop ~push
@push acc z: !named_in(self.new_directive.s_arguments(), z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/directive.rs impl=DirectiveDiff header="impl<'a> DirectiveDiff<'a>" fn=diff
    ensures forall|c: ChangeV<'a>| #![trigger hasc(r@, c)] #![trigger dir_has(*self.old_directive, *self.new_directive, c)] hasc(r@, c) <==> dir_has(*self.old_directive, *self.new_directive, c)
//@ loop ~DirectiveArgumentAdded
@pushc $mut0 z: true =>> ChangeV::DirectiveArgumentAdded { ctx: self.new_directive.s_name(), x: *z }
//@ loop ~DirectiveArgumentRemoved
@pushc $mut0 z: true =>> ChangeV::DirectiveArgumentRemoved { ctx: self.old_directive.s_name(), x: *z }
//@ loop ~DirectiveArgumentValueChanged
@extc $mut0 z: first(self.new_directive.s_arguments(), z.s_name()) is Some && !veq(z.s_value(), first(self.new_directive.s_arguments(), z.s_name())->0.s_value()) && __c == (ChangeV::DirectiveArgumentValueChanged { ctx: self.old_directive.s_name(), x: z, y: first(self.new_directive.s_arguments(), z.s_name())->0 })
//@ loop ~!push
@first $up.s_name()
//@ attrs #[verifier::spinoff_prover]
//@ at start
proof { reveal(dir_has); }
//@end
//@fn src=bluejay-schema-comparator/src/diff/directive.rs header="" fn=directive_additions
    ensures forall|x: &Directive<true>| #![trigger r@.contains(x)] #![trigger dirs(*$1).contains(*x)] r@.contains(x) <==> dirs(*$1).contains(*x) && !named_in(dirs(*$0), x.s_name())
//@ sig fn directive_additions<'a, T: HasDirectives>($0: &'a T, $1: &'a T) -> (r: ItV<&'a Directive<true>>)
//@ loop ~push
@push acc z: !named_in(dirs(*$0), z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/directive.rs header="" fn=directive_removals
    ensures forall|x: &Directive<true>| #![trigger r@.contains(x)] #![trigger dirs(*$0).contains(*x)] r@.contains(x) <==> dirs(*$0).contains(*x) && !named_in(dirs(*$1), x.s_name())
//@ sig fn directive_removals<'a, T: HasDirectives>($0: &'a T, $1: &'a T) -> (r: ItV<&'a Directive<true>>)
//@ loop ~push
@push acc z: !named_in(dirs(*$1), z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/directive.rs header="" fn=common_directive_changes
    ensures forall|c: ChangeV<'a>| #![trigger hasc(r@, c)] #![trigger common_dirs_has(dirs(*$0), dirs(*$1), c)] hasc(r@, c) <==> common_dirs_has(dirs(*$0), dirs(*$1), c)
//@ sig fn common_directive_changes<'a, T: HasDirectives>($0: &'a T, $1: &'a T) -> (r: ItV<Change<'a>>)
//@ loop ~diff
@extc acc z: first(dirs(*$1), z.s_name()) is Some && dir_has(z, first(dirs(*$1), z.s_name())->0, __c)
//@ loop ~push !diff
@append acc
//@ loop *~
@first $up.s_name()
//@end
pub open spec fn desc_differs(a: Option<Seq<char>>, b: Option<Seq<char>>) -> bool { a != b }
pub open spec fn default_differs(a: Option<Value<true>>, b: Option<Value<true>>) -> bool { match (a, b) { (Some(x), Some(y)) => !veq(x, y), (None, None) => false, _ => true } }

#[verifier::opaque]
pub open spec fn arg_has<'a>(tn: Seq<char>, fname: Seq<char>, o: InputValueDefinition, n: InputValueDefinition, c: ChangeV<'a>) -> bool { (match c {
    ChangeV::FieldArgumentDescriptionChanged { ctx, fd, a, b } => ctx == tn && fd == fname && a == o && b == n && desc_differs(o.s_description(), n.s_description()),
    ChangeV::FieldArgumentTypeChanged { ctx, fd, a, b } => ctx == tn && fd == fname && a == o && b == n && o.s_type_().v() != n.s_type_().v(),
    ChangeV::FieldArgumentDefaultValueChanged { ctx, fd, a, b } => ctx == tn && fd == fname && a == o && b == n && default_differs(o.s_default_value(), n.s_default_value()),
    _ => false }) || dirs_has(o.s_directives(), n.s_directives(), DirectiveLocation::ArgumentDefinition, o.s_name(), c) }
//@item src=bluejay-schema-comparator/src/diff/argument.rs name=ArgumentDiff subst="< 'a , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-schema-comparator/src/diff/argument.rs impl=ArgumentDiff fn=new header="impl<'a> ArgumentDiff<'a>"
    ensures r.type_name == $0, r.field_definition == $1, r.old_argument_definition == $2, r.new_argument_definition == $3
//@end
//@fn src=bluejay-schema-comparator/src/diff/argument.rs impl=ArgumentDiff header="impl<'a> ArgumentDiff<'a>" fn=diff
    ensures forall|c: ChangeV<'a>| #![trigger hasc(r@, c)] #![trigger arg_has(self.type_name@, self.field_definition.s_name(), *self.old_argument_definition, *self.new_argument_definition, c)] hasc(r@, c) <==> arg_has(self.type_name@, self.field_definition.s_name(), *self.old_argument_definition, *self.new_argument_definition, c)
//@ loop ~DirectiveAdded
@pushc $mut0 z: true =>> ChangeV::DirectiveAdded { loc: DirectiveLocation::ArgumentDefinition, ctx: self.old_argument_definition.s_name(), d: *z }
//@ loop ~DirectiveRemoved
@pushc $mut0 z: true =>> ChangeV::DirectiveRemoved { loc: DirectiveLocation::ArgumentDefinition, ctx: self.old_argument_definition.s_name(), d: *z }
//@ loop ~push !Change
@append $mut0
//@ attrs #[verifier::spinoff_prover]
//@ at start
proof { reveal(arg_has); }
//@end
#[verifier::opaque]
pub open spec fn input_field_has<'a>(tn: Seq<char>, o: InputValueDefinition, n: InputValueDefinition, c: ChangeV<'a>) -> bool { (match c {
    ChangeV::InputFieldDescriptionChanged { ctx, a, b } => ctx == tn && a == o && b == n && desc_differs(o.s_description(), n.s_description()),
    ChangeV::InputFieldTypeChanged { ctx, a, b } => ctx == tn && a == o && b == n && o.s_type_().v() != n.s_type_().v(),
    ChangeV::InputFieldDefaultValueChanged { ctx, a, b } => ctx == tn && a == o && b == n && default_differs(o.s_default_value(), n.s_default_value()),
    _ => false }) || dirs_has(o.s_directives(), n.s_directives(), DirectiveLocation::InputFieldDefinition, o.s_name(), c) }
//@item src=bluejay-schema-comparator/src/diff/input_field.rs name=InputFieldDiff subst="< 'a , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-schema-comparator/src/diff/input_field.rs impl=InputFieldDiff fn=new header="impl<'a> InputFieldDiff<'a>"
    ensures r.old_type_definition == $0, r.old_field_definition == $1, r.new_field_definition == $2
//@end
//@fn src=bluejay-schema-comparator/src/diff/input_field.rs impl=InputFieldDiff header="impl<'a> InputFieldDiff<'a>" fn=diff
    ensures forall|c: ChangeV<'a>| #![trigger hasc(r@, c)] #![trigger input_field_has(self.old_type_definition.s_name(), *self.old_field_definition, *self.new_field_definition, c)] hasc(r@, c) <==> input_field_has(self.old_type_definition.s_name(), *self.old_field_definition, *self.new_field_definition, c)
//@ loop ~DirectiveAdded
@pushc $mut0 z: true =>> ChangeV::DirectiveAdded { loc: DirectiveLocation::InputFieldDefinition, ctx: self.old_field_definition.s_name(), d: *z }
//@ loop ~DirectiveRemoved
@pushc $mut0 z: true =>> ChangeV::DirectiveRemoved { loc: DirectiveLocation::InputFieldDefinition, ctx: self.old_field_definition.s_name(), d: *z }
//@ loop ~push !Change
@append $mut0
//@ attrs #[verifier::spinoff_prover]
//@ at start
proof { reveal(input_field_has); }
//@end
#[verifier::opaque]
pub open spec fn dda_has<'a>(dn: Seq<char>, o: InputValueDefinition, n: InputValueDefinition, c: ChangeV<'a>) -> bool { (match c {
    ChangeV::DirectiveDefinitionArgumentDescriptionChanged { ctx, a, b } => ctx == dn && a == o && b == n && desc_differs(o.s_description(), n.s_description()),
    ChangeV::DirectiveDefinitionArgumentTypeChanged { ctx, a, b } => ctx == dn && a == o && b == n && o.s_type_().v() != n.s_type_().v(),
    ChangeV::DirectiveDefinitionArgumentDefaultValueChanged { ctx, a, b } => ctx == dn && a == o && b == n && default_differs(o.s_default_value(), n.s_default_value()),
    _ => false }) || dirs_has(o.s_directives(), n.s_directives(), DirectiveLocation::ArgumentDefinition, o.s_name(), c) }
//@item src=bluejay-schema-comparator/src/diff/directive_definition_argument.rs name=DirectiveDefinitionArgumentDiff subst="< 'a , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-schema-comparator/src/diff/directive_definition_argument.rs impl=DirectiveDefinitionArgumentDiff fn=new header="impl<'a> DirectiveDefinitionArgumentDiff<'a>"
    ensures r.directive_definition == $0, r.old_argument_definition == $1, r.new_argument_definition == $2
//@end
//@fn src=bluejay-schema-comparator/src/diff/directive_definition_argument.rs impl=DirectiveDefinitionArgumentDiff header="impl<'a> DirectiveDefinitionArgumentDiff<'a>" fn=diff
    ensures forall|c: ChangeV<'a>| #![trigger hasc(r@, c)] #![trigger dda_has(self.directive_definition.s_name(), *self.old_argument_definition, *self.new_argument_definition, c)] hasc(r@, c) <==> dda_has(self.directive_definition.s_name(), *self.old_argument_definition, *self.new_argument_definition, c)
//@ loop ~DirectiveAdded
@pushc $mut0 z: true =>> ChangeV::DirectiveAdded { loc: DirectiveLocation::ArgumentDefinition, ctx: self.old_argument_definition.s_name(), d: *z }
//@ loop ~DirectiveRemoved
@pushc $mut0 z: true =>> ChangeV::DirectiveRemoved { loc: DirectiveLocation::ArgumentDefinition, ctx: self.old_argument_definition.s_name(), d: *z }
//@ loop ~push !Change
@append $mut0
//@ attrs #[verifier::spinoff_prover]
//@ at start
proof { reveal(dda_has); }
//@end
#[verifier::opaque]
pub open spec fn enum_value_has<'a>(en: Seq<char>, o: EnumValueDefinition, n: EnumValueDefinition, c: ChangeV<'a>) -> bool { (match c {
    ChangeV::EnumValueDescriptionChanged { ctx, e, g } => ctx == en && e == o && g == n && desc_differs(o.s_description(), n.s_description()),
    _ => false }) || dirs_has(o.s_directives(), n.s_directives(), DirectiveLocation::EnumValue, o.s_name(), c) }
//@item src=bluejay-schema-comparator/src/diff/enum_value.rs name=EnumValueDiff subst="< 'a , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-schema-comparator/src/diff/enum_value.rs impl=EnumValueDiff fn=new header="impl<'a> EnumValueDiff<'a>"
    ensures r.enum_type_definition == $0, r.old_value_definition == $1, r.new_value_definition == $2
//@end
//@fn src=bluejay-schema-comparator/src/diff/enum_value.rs impl=EnumValueDiff header="impl<'a> EnumValueDiff<'a>" fn=diff
    ensures forall|c: ChangeV<'a>| #![trigger hasc(r@, c)] #![trigger enum_value_has(self.enum_type_definition.s_name(), *self.old_value_definition, *self.new_value_definition, c)] hasc(r@, c) <==> enum_value_has(self.enum_type_definition.s_name(), *self.old_value_definition, *self.new_value_definition, c)
//@ loop ~DirectiveAdded
@pushc $mut0 z: true =>> ChangeV::DirectiveAdded { loc: DirectiveLocation::EnumValue, ctx: self.old_value_definition.s_name(), d: *z }
//@ loop ~DirectiveRemoved
@pushc $mut0 z: true =>> ChangeV::DirectiveRemoved { loc: DirectiveLocation::EnumValue, ctx: self.old_value_definition.s_name(), d: *z }
//@ loop ~push !Change
@append $mut0
//@ attrs #[verifier::spinoff_prover]
//@ at start
proof { reveal(enum_value_has); }
//@end
pub open spec fn common_args_has<'a>(tn: Seq<char>, fname: Seq<char>, o: Seq<InputValueDefinition>, n: Seq<InputValueDefinition>, c: ChangeV<'a>) -> bool { exists|i: int| 0 <= i < o.len() && first(n, (#[trigger] o[i]).s_name()) is Some && arg_has(tn, fname, o[i], first(n, o[i].s_name())->0, c) }
#[verifier::opaque]
pub open spec fn field_has<'a>(tn: Seq<char>, o: FieldDefinition, n: FieldDefinition, c: ChangeV<'a>) -> bool { (match c {
    ChangeV::FieldDescriptionChanged { ctx, f, g } => ctx == tn && f == o && g == n && desc_differs(o.s_description(), n.s_description()),
    ChangeV::FieldTypeChanged { ctx, f, g } => ctx == tn && f == o && g == n && o.s_type_().v() != n.s_type_().v(),
    ChangeV::FieldArgumentAdded { ctx, fd, a } => ctx == tn && fd == o.s_name() && n.s_arguments_definition().contains(a) && !named_in(o.s_arguments_definition(), a.s_name()),
    ChangeV::FieldArgumentRemoved { ctx, fd, a } => ctx == tn && fd == o.s_name() && o.s_arguments_definition().contains(a) && !named_in(n.s_arguments_definition(), a.s_name()),
    _ => false }) || dirs_has(o.s_directives(), n.s_directives(), DirectiveLocation::FieldDefinition, o.s_name(), c) || common_args_has(tn, o.s_name(), o.s_arguments_definition(), n.s_arguments_definition(), c) }
//@item src=bluejay-schema-comparator/src/diff/field.rs name=FieldDiff subst="< 'a , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-schema-comparator/src/diff/field.rs impl=FieldDiff fn=new header="impl<'a> FieldDiff<'a>"
    ensures r.type_name == $0, r.old_field_definition == $1, r.new_field_definition == $2
//@end
//@fn src=bluejay-schema-comparator/src/diff/field.rs impl=FieldDiff header="impl<'a> FieldDiff<'a>" fn=argument_additions
    ensures forall|x: &InputValueDefinition| #![trigger r@.contains(x)] #![trigger self.new_field_definition.s_arguments_definition().contains(*x)] r@.contains(x) <==> self.new_field_definition.s_arguments_definition().contains(*x) && !named_in(self.old_field_definition.s_arguments_definition(), x.s_name())
//@ sig fn argument_additions(&self) -> (r: ItV<&'a InputValueDefinition>)
//@ loop ~push
@push acc z: !named_in(self.old_field_definition.s_arguments_definition(), z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/field.rs impl=FieldDiff header="impl<'a> FieldDiff<'a>" fn=argument_removals
    ensures forall|x: &InputValueDefinition| #![trigger r@.contains(x)] #![trigger self.old_field_definition.s_arguments_definition().contains(*x)] r@.contains(x) <==> self.old_field_definition.s_arguments_definition().contains(*x) && !named_in(self.new_field_definition.s_arguments_definition(), x.s_name())
//@ sig fn argument_removals(&self) -> (r: ItV<&'a InputValueDefinition>)
//@ loop ~push
@push acc z: !named_in(self.new_field_definition.s_arguments_definition(), z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/field.rs impl=FieldDiff header="impl<'a> FieldDiff<'a>" fn=diff
    requires self.old_field_definition.s_name() == self.new_field_definition.s_name()
    ensures forall|c: ChangeV<'a>| #![trigger hasc(r@, c)] #![trigger field_has(self.type_name@, *self.old_field_definition, *self.new_field_definition, c)] hasc(r@, c) <==> field_has(self.type_name@, *self.old_field_definition, *self.new_field_definition, c)
//@ loop ~FieldArgumentAdded
@pushc $mut0 z: true =>> ChangeV::FieldArgumentAdded { ctx: self.type_name@, fd: self.old_field_definition.s_name(), a: *z }
//@ loop ~FieldArgumentRemoved
@pushc $mut0 z: true =>> ChangeV::FieldArgumentRemoved { ctx: self.type_name@, fd: self.old_field_definition.s_name(), a: *z }
//@ loop ~DirectiveAdded
@pushc $mut0 z: true =>> ChangeV::DirectiveAdded { loc: DirectiveLocation::FieldDefinition, ctx: self.old_field_definition.s_name(), d: *z }
//@ loop ~DirectiveRemoved
@pushc $mut0 z: true =>> ChangeV::DirectiveRemoved { loc: DirectiveLocation::FieldDefinition, ctx: self.old_field_definition.s_name(), d: *z }
//@ loop ~push !Change
@append $mut0
//@ loop ~diff
@extc $mut0 z: first(self.new_field_definition.s_arguments_definition(), z.s_name()) is Some && arg_has(self.type_name@, self.old_field_definition.s_name(), z, first(self.new_field_definition.s_arguments_definition(), z.s_name())->0, __c)
//@ loop *~
@first $up.s_name()
//@ attrs #[verifier::spinoff_prover]
//@ at start
proof { reveal(field_has); }
//@end
pub open spec fn common_fields_has<'a>(tn: Seq<char>, o: Seq<FieldDefinition>, n: Seq<FieldDefinition>, c: ChangeV<'a>) -> bool { exists|i: int| 0 <= i < o.len() && first(n, (#[trigger] o[i]).s_name()) is Some && field_has(tn, o[i], first(n, o[i].s_name())->0, c) }
pub open spec fn common_input_fields_has<'a>(tn: Seq<char>, o: Seq<InputValueDefinition>, n: Seq<InputValueDefinition>, c: ChangeV<'a>) -> bool { exists|i: int| 0 <= i < o.len() && first(n, (#[trigger] o[i]).s_name()) is Some && input_field_has(tn, o[i], first(n, o[i].s_name())->0, c) }
pub open spec fn common_enum_values_has<'a>(tn: Seq<char>, o: Seq<EnumValueDefinition>, n: Seq<EnumValueDefinition>, c: ChangeV<'a>) -> bool { exists|i: int| 0 <= i < o.len() && first(n, (#[trigger] o[i]).s_name()) is Some && enum_value_has(tn, o[i], first(n, o[i].s_name())->0, c) }
pub open spec fn common_dda_has<'a>(tn: Seq<char>, o: Seq<InputValueDefinition>, n: Seq<InputValueDefinition>, c: ChangeV<'a>) -> bool { exists|i: int| 0 <= i < o.len() && first(n, (#[trigger] o[i]).s_name()) is Some && dda_has(tn, o[i], first(n, o[i].s_name())->0, c) }
#[verifier::opaque]
pub open spec fn enum_has<'a>(o: EnumTypeDefinition, n: EnumTypeDefinition, c: ChangeV<'a>) -> bool { (match c {
    ChangeV::EnumValueAdded { ctx, e } => ctx == o.s_name() && n.s_enum_value_definitions()@.contains(e) && !named_in(o.s_enum_value_definitions()@, e.s_name()),
    ChangeV::EnumValueRemoved { ctx, e } => ctx == o.s_name() && o.s_enum_value_definitions()@.contains(e) && !named_in(n.s_enum_value_definitions()@, e.s_name()),
    _ => false }) || dirs_has(o.s_directives(), n.s_directives(), DirectiveLocation::Enum, o.s_name(), c) || common_enum_values_has(o.s_name(), o.s_enum_value_definitions()@, n.s_enum_value_definitions()@, c) }
//@item src=bluejay-schema-comparator/src/diff/enum_type.rs name=EnumTypeDiff subst="< 'a , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-schema-comparator/src/diff/enum_type.rs impl=EnumTypeDiff fn=new header="impl<'a> EnumTypeDiff<'a>"
    ensures r.old_type_definition == $0, r.new_type_definition == $1
//@end
//@fn src=bluejay-schema-comparator/src/diff/enum_type.rs impl=EnumTypeDiff header="impl<'a> EnumTypeDiff<'a>" fn=value_additions
    ensures forall|x: &EnumValueDefinition| #![trigger r@.contains(x)] #![trigger self.new_type_definition.s_enum_value_definitions()@.contains(*x)] r@.contains(x) <==> self.new_type_definition.s_enum_value_definitions()@.contains(*x) && !named_in(self.old_type_definition.s_enum_value_definitions()@, x.s_name())
//@ sig fn value_additions(&self) -> (r: ItV<&'a EnumValueDefinition>)
//@ loop ~push
@push acc z: !named_in(self.old_type_definition.s_enum_value_definitions()@, z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/enum_type.rs impl=EnumTypeDiff header="impl<'a> EnumTypeDiff<'a>" fn=value_removals
    ensures forall|x: &EnumValueDefinition| #![trigger r@.contains(x)] #![trigger self.old_type_definition.s_enum_value_definitions()@.contains(*x)] r@.contains(x) <==> self.old_type_definition.s_enum_value_definitions()@.contains(*x) && !named_in(self.new_type_definition.s_enum_value_definitions()@, x.s_name())
//@ sig fn value_removals(&self) -> (r: ItV<&'a EnumValueDefinition>)
//@ loop ~push
@push acc z: !named_in(self.new_type_definition.s_enum_value_definitions()@, z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/enum_type.rs impl=EnumTypeDiff header="impl<'a> EnumTypeDiff<'a>" fn=diff
    requires self.old_type_definition.s_name() == self.new_type_definition.s_name()
    ensures forall|c: ChangeV<'a>| #![trigger hasc(r@, c)] #![trigger enum_has(*self.old_type_definition, *self.new_type_definition, c)] hasc(r@, c) <==> enum_has(*self.old_type_definition, *self.new_type_definition, c)
//@ loop ~EnumValueAdded
@pushc $mut0 z: true =>> ChangeV::EnumValueAdded { ctx: self.old_type_definition.s_name(), e: *z }
//@ loop ~EnumValueRemoved
@pushc $mut0 z: true =>> ChangeV::EnumValueRemoved { ctx: self.old_type_definition.s_name(), e: *z }
//@ loop ~diff
@extc $mut0 z: first(self.new_type_definition.s_enum_value_definitions()@, z.s_name()) is Some && enum_value_has(self.old_type_definition.s_name(), z, first(self.new_type_definition.s_enum_value_definitions()@, z.s_name())->0, __c)
//@ loop ~DirectiveAdded
@pushc $mut0 z: true =>> ChangeV::DirectiveAdded { loc: DirectiveLocation::Enum, ctx: self.old_type_definition.s_name(), d: *z }
//@ loop ~DirectiveRemoved
@pushc $mut0 z: true =>> ChangeV::DirectiveRemoved { loc: DirectiveLocation::Enum, ctx: self.old_type_definition.s_name(), d: *z }
//@ loop ~push !Change
@append $mut0
//@ loop *~
@first $up.s_name()
//@ attrs #[verifier::spinoff_prover]
//@ at start
proof { reveal(enum_has); }
//@end
#[verifier::opaque]
pub open spec fn union_has<'a>(o: UnionTypeDefinition, n: UnionTypeDefinition, c: ChangeV<'a>) -> bool { (match c {
    ChangeV::UnionMemberAdded { ctx, m } => ctx == o.s_name() && n.s_union_member_types()@.contains(m) && !named_in(o.s_union_member_types()@, m.s_name()),
    ChangeV::UnionMemberRemoved { ctx, m } => ctx == o.s_name() && o.s_union_member_types()@.contains(m) && !named_in(n.s_union_member_types()@, m.s_name()),
    _ => false }) || dirs_has(o.s_directives(), n.s_directives(), DirectiveLocation::Union, o.s_name(), c) }
//@item src=bluejay-schema-comparator/src/diff/union_type.rs name=UnionTypeDiff subst="< 'a , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-schema-comparator/src/diff/union_type.rs impl=UnionTypeDiff fn=new header="impl<'a> UnionTypeDiff<'a>"
    ensures r.old_type == $0, r.new_type == $1
//@end
//@fn src=bluejay-schema-comparator/src/diff/union_type.rs impl=UnionTypeDiff header="impl<'a> UnionTypeDiff<'a>" fn=member_additions
    ensures forall|x: &UnionMemberType| #![trigger r@.contains(x)] #![trigger self.new_type.s_union_member_types()@.contains(*x)] r@.contains(x) <==> self.new_type.s_union_member_types()@.contains(*x) && !named_in(self.old_type.s_union_member_types()@, x.s_name())
//@ sig fn member_additions(&self) -> (r: ItV<&'a UnionMemberType>)
//@ loop ~push
@push acc z: !named_in(self.old_type.s_union_member_types()@, z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/union_type.rs impl=UnionTypeDiff header="impl<'a> UnionTypeDiff<'a>" fn=member_removals
    ensures forall|x: &UnionMemberType| #![trigger r@.contains(x)] #![trigger self.old_type.s_union_member_types()@.contains(*x)] r@.contains(x) <==> self.old_type.s_union_member_types()@.contains(*x) && !named_in(self.new_type.s_union_member_types()@, x.s_name())
//@ sig fn member_removals(&self) -> (r: ItV<&'a UnionMemberType>)
//@ loop ~push
@push acc z: !named_in(self.new_type.s_union_member_types()@, z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/union_type.rs impl=UnionTypeDiff header="impl<'a> UnionTypeDiff<'a>" fn=diff
    requires self.old_type.s_name() == self.new_type.s_name()
    ensures forall|c: ChangeV<'a>| #![trigger hasc(r@, c)] #![trigger union_has(*self.old_type, *self.new_type, c)] hasc(r@, c) <==> union_has(*self.old_type, *self.new_type, c)
//@ loop ~UnionMemberAdded
@pushc $mut0 z: true =>> ChangeV::UnionMemberAdded { ctx: self.old_type.s_name(), m: *z }
//@ loop ~UnionMemberRemoved
@pushc $mut0 z: true =>> ChangeV::UnionMemberRemoved { ctx: self.old_type.s_name(), m: *z }
//@ loop ~DirectiveAdded
@pushc $mut0 z: true =>> ChangeV::DirectiveAdded { loc: DirectiveLocation::Union, ctx: self.old_type.s_name(), d: *z }
//@ loop ~DirectiveRemoved
@pushc $mut0 z: true =>> ChangeV::DirectiveRemoved { loc: DirectiveLocation::Union, ctx: self.old_type.s_name(), d: *z }
//@ loop ~push !Change
@append $mut0
//@ loop *~
@first $up.s_name()
//@ attrs #[verifier::spinoff_prover]
//@ at start
proof { reveal(union_has); }
//@end
#[verifier::opaque]
pub open spec fn input_object_has<'a>(o: InputObjectTypeDefinition, n: InputObjectTypeDefinition, c: ChangeV<'a>) -> bool { (match c {
    ChangeV::InputFieldAdded { ctx, a } => ctx == o.s_name() && n.s_input_field_definitions()@.contains(a) && !named_in(o.s_input_field_definitions()@, a.s_name()),
    ChangeV::InputFieldRemoved { ctx, a } => ctx == o.s_name() && o.s_input_field_definitions()@.contains(a) && !named_in(n.s_input_field_definitions()@, a.s_name()),
    _ => false }) || dirs_has(o.s_directives(), n.s_directives(), DirectiveLocation::InputObject, o.s_name(), c) || common_input_fields_has(o.s_name(), o.s_input_field_definitions()@, n.s_input_field_definitions()@, c) }
//@item src=bluejay-schema-comparator/src/diff/input_object_type.rs name=InputObjectTypeDiff subst="< 'a , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-schema-comparator/src/diff/input_object_type.rs impl=InputObjectTypeDiff fn=new header="impl<'a> InputObjectTypeDiff<'a>"
    ensures r.old_type_definition == $0, r.new_type_definition == $1
//@end
//@fn src=bluejay-schema-comparator/src/diff/input_object_type.rs impl=InputObjectTypeDiff header="impl<'a> InputObjectTypeDiff<'a>" fn=input_field_additions
    ensures forall|x: &InputValueDefinition| #![trigger r@.contains(x)] #![trigger self.new_type_definition.s_input_field_definitions()@.contains(*x)] r@.contains(x) <==> self.new_type_definition.s_input_field_definitions()@.contains(*x) && !named_in(self.old_type_definition.s_input_field_definitions()@, x.s_name())
//@ sig fn input_field_additions(&self) -> (r: ItV<&'a InputValueDefinition>)
//@ loop ~push
@push acc z: !named_in(self.old_type_definition.s_input_field_definitions()@, z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/input_object_type.rs impl=InputObjectTypeDiff header="impl<'a> InputObjectTypeDiff<'a>" fn=input_field_removals
    ensures forall|x: &InputValueDefinition| #![trigger r@.contains(x)] #![trigger self.old_type_definition.s_input_field_definitions()@.contains(*x)] r@.contains(x) <==> self.old_type_definition.s_input_field_definitions()@.contains(*x) && !named_in(self.new_type_definition.s_input_field_definitions()@, x.s_name())
//@ sig fn input_field_removals(&self) -> (r: ItV<&'a InputValueDefinition>)
//@ loop ~push
@push acc z: !named_in(self.new_type_definition.s_input_field_definitions()@, z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/input_object_type.rs impl=InputObjectTypeDiff header="impl<'a> InputObjectTypeDiff<'a>" fn=diff
    requires self.old_type_definition.s_name() == self.new_type_definition.s_name()
    ensures forall|c: ChangeV<'a>| #![trigger hasc(r@, c)] #![trigger input_object_has(*self.old_type_definition, *self.new_type_definition, c)] hasc(r@, c) <==> input_object_has(*self.old_type_definition, *self.new_type_definition, c)
//@ loop ~InputFieldAdded
@pushc $mut0 z: true =>> ChangeV::InputFieldAdded { ctx: self.old_type_definition.s_name(), a: *z }
//@ loop ~InputFieldRemoved
@pushc $mut0 z: true =>> ChangeV::InputFieldRemoved { ctx: self.old_type_definition.s_name(), a: *z }
//@ loop ~diff
@extc $mut0 z: first(self.new_type_definition.s_input_field_definitions()@, z.s_name()) is Some && input_field_has(self.old_type_definition.s_name(), z, first(self.new_type_definition.s_input_field_definitions()@, z.s_name())->0, __c)
//@ loop ~DirectiveAdded
@pushc $mut0 z: true =>> ChangeV::DirectiveAdded { loc: DirectiveLocation::InputObject, ctx: self.old_type_definition.s_name(), d: *z }
//@ loop ~DirectiveRemoved
@pushc $mut0 z: true =>> ChangeV::DirectiveRemoved { loc: DirectiveLocation::InputObject, ctx: self.old_type_definition.s_name(), d: *z }
//@ loop ~push !Change
@append $mut0
//@ loop *~
@first $up.s_name()
//@ attrs #[verifier::spinoff_prover]
//@ at start
proof { reveal(input_object_has); }
//@end
#[verifier::opaque]
pub open spec fn interface_has<'a>(o: InterfaceTypeDefinition, n: InterfaceTypeDefinition, c: ChangeV<'a>) -> bool { (match c {
    ChangeV::FieldAdded { ctx, f } => ctx == o.s_name() && n.s_fields_definition()@.contains(f) && !named_in(o.s_fields_definition()@, f.s_name()),
    ChangeV::FieldRemoved { ctx, f } => ctx == o.s_name() && o.s_fields_definition()@.contains(f) && !named_in(n.s_fields_definition()@, f.s_name()),
    _ => false }) || dirs_has(o.s_directives(), n.s_directives(), DirectiveLocation::Interface, o.s_name(), c) || common_fields_has(o.s_name(), o.s_fields_definition()@, n.s_fields_definition()@, c) }
//@item src=bluejay-schema-comparator/src/diff/interface_type.rs name=InterfaceTypeDiff subst="< 'a , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-schema-comparator/src/diff/interface_type.rs impl=InterfaceTypeDiff fn=new header="impl<'a> InterfaceTypeDiff<'a>"
    ensures r.old_interface_definition == $0, r.new_interface_definition == $1
//@end
//@fn src=bluejay-schema-comparator/src/diff/interface_type.rs impl=InterfaceTypeDiff header="impl<'a> InterfaceTypeDiff<'a>" fn=field_additions
    ensures forall|x: &FieldDefinition| #![trigger r@.contains(x)] #![trigger self.new_interface_definition.s_fields_definition()@.contains(*x)] r@.contains(x) <==> self.new_interface_definition.s_fields_definition()@.contains(*x) && !named_in(self.old_interface_definition.s_fields_definition()@, x.s_name())
//@ sig fn field_additions(&self) -> (r: ItV<&'a FieldDefinition>)
//@ loop ~push
@push acc z: !named_in(self.old_interface_definition.s_fields_definition()@, z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/interface_type.rs impl=InterfaceTypeDiff header="impl<'a> InterfaceTypeDiff<'a>" fn=field_removals
    ensures forall|x: &FieldDefinition| #![trigger r@.contains(x)] #![trigger self.old_interface_definition.s_fields_definition()@.contains(*x)] r@.contains(x) <==> self.old_interface_definition.s_fields_definition()@.contains(*x) && !named_in(self.new_interface_definition.s_fields_definition()@, x.s_name())
//@ sig fn field_removals(&self) -> (r: ItV<&'a FieldDefinition>)
//@ loop ~push
@push acc z: !named_in(self.new_interface_definition.s_fields_definition()@, z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/interface_type.rs impl=InterfaceTypeDiff header="impl<'a> InterfaceTypeDiff<'a>" fn=diff
    requires self.old_interface_definition.s_name() == self.new_interface_definition.s_name()
    ensures forall|c: ChangeV<'a>| #![trigger hasc(r@, c)] #![trigger interface_has(*self.old_interface_definition, *self.new_interface_definition, c)] hasc(r@, c) <==> interface_has(*self.old_interface_definition, *self.new_interface_definition, c)
//@ loop ~FieldAdded
@pushc $mut0 z: true =>> ChangeV::FieldAdded { ctx: self.old_interface_definition.s_name(), f: *z }
//@ loop ~FieldRemoved
@pushc $mut0 z: true =>> ChangeV::FieldRemoved { ctx: self.old_interface_definition.s_name(), f: *z }
//@ loop ~diff
@extc $mut0 z: first(self.new_interface_definition.s_fields_definition()@, z.s_name()) is Some && field_has(self.old_interface_definition.s_name(), z, first(self.new_interface_definition.s_fields_definition()@, z.s_name())->0, __c)
//@ loop ~DirectiveAdded
@pushc $mut0 z: true =>> ChangeV::DirectiveAdded { loc: DirectiveLocation::Interface, ctx: self.old_interface_definition.s_name(), d: *z }
//@ loop ~DirectiveRemoved
@pushc $mut0 z: true =>> ChangeV::DirectiveRemoved { loc: DirectiveLocation::Interface, ctx: self.old_interface_definition.s_name(), d: *z }
//@ loop ~push !Change
@append $mut0
//@ loop *~
@first $up.s_name()
//@ attrs #[verifier::spinoff_prover]
//@ at start
proof { reveal(interface_has); }
//@end
#[verifier::opaque]
pub open spec fn object_has<'a>(o: ObjectTypeDefinition, n: ObjectTypeDefinition, c: ChangeV<'a>) -> bool { (match c {
    ChangeV::FieldAdded { ctx, f } => ctx == o.s_name() && n.s_fields_definition()@.contains(f) && !named_in(o.s_fields_definition()@, f.s_name()),
    ChangeV::FieldRemoved { ctx, f } => ctx == o.s_name() && o.s_fields_definition()@.contains(f) && !named_in(n.s_fields_definition()@, f.s_name()),
    ChangeV::ObjectInterfaceAddition { ctx, i } => ctx == o.s_name() && n.s_interface_implementations().contains(i) && !named_in(o.s_interface_implementations(), i.s_name()),
    ChangeV::ObjectInterfaceRemoval { ctx, i } => ctx == o.s_name() && o.s_interface_implementations().contains(i) && !named_in(n.s_interface_implementations(), i.s_name()),
    _ => false }) || dirs_has(o.s_directives(), n.s_directives(), DirectiveLocation::Object, o.s_name(), c) || common_fields_has(o.s_name(), o.s_fields_definition()@, n.s_fields_definition()@, c) }
//@item src=bluejay-schema-comparator/src/diff/object_type.rs name=ObjectTypeDiff subst="< 'a , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-schema-comparator/src/diff/object_type.rs impl=ObjectTypeDiff fn=new header="impl<'a> ObjectTypeDiff<'a>"
    ensures r.old_type_definition == $0, r.new_type_definition == $1
//@end
//@fn src=bluejay-schema-comparator/src/diff/object_type.rs impl=ObjectTypeDiff header="impl<'a> ObjectTypeDiff<'a>" fn=field_additions
    ensures forall|x: &FieldDefinition| #![trigger r@.contains(x)] #![trigger self.new_type_definition.s_fields_definition()@.contains(*x)] r@.contains(x) <==> self.new_type_definition.s_fields_definition()@.contains(*x) && !named_in(self.old_type_definition.s_fields_definition()@, x.s_name())
//@ sig fn field_additions(&self) -> (r: ItV<&'a FieldDefinition>)
//@ loop ~push
@push acc z: !named_in(self.old_type_definition.s_fields_definition()@, z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/object_type.rs impl=ObjectTypeDiff header="impl<'a> ObjectTypeDiff<'a>" fn=field_removals
    ensures forall|x: &FieldDefinition| #![trigger r@.contains(x)] #![trigger self.old_type_definition.s_fields_definition()@.contains(*x)] r@.contains(x) <==> self.old_type_definition.s_fields_definition()@.contains(*x) && !named_in(self.new_type_definition.s_fields_definition()@, x.s_name())
//@ sig fn field_removals(&self) -> (r: ItV<&'a FieldDefinition>)
//@ loop ~push
@push acc z: !named_in(self.new_type_definition.s_fields_definition()@, z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/object_type.rs impl=ObjectTypeDiff header="impl<'a> ObjectTypeDiff<'a>" fn=interface_additions
    ensures forall|x: &InterfaceImplementation| #![trigger r@.contains(x)] #![trigger self.new_type_definition.s_interface_implementations().contains(*x)] r@.contains(x) <==> self.new_type_definition.s_interface_implementations().contains(*x) && !named_in(self.old_type_definition.s_interface_implementations(), x.s_name())
//@ sig fn interface_additions(&self) -> (r: ItV<&'a InterfaceImplementation>)
//@ loop ~push
@push acc z: !named_in(self.old_type_definition.s_interface_implementations(), z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/object_type.rs impl=ObjectTypeDiff header="impl<'a> ObjectTypeDiff<'a>" fn=interface_removals
    ensures forall|x: &InterfaceImplementation| #![trigger r@.contains(x)] #![trigger self.old_type_definition.s_interface_implementations().contains(*x)] r@.contains(x) <==> self.old_type_definition.s_interface_implementations().contains(*x) && !named_in(self.new_type_definition.s_interface_implementations(), x.s_name())
//@ sig fn interface_removals(&self) -> (r: ItV<&'a InterfaceImplementation>)
//@ loop ~push
@push acc z: !named_in(self.new_type_definition.s_interface_implementations(), z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/object_type.rs impl=ObjectTypeDiff header="impl<'a> ObjectTypeDiff<'a>" fn=diff
    requires self.old_type_definition.s_name() == self.new_type_definition.s_name()
    ensures forall|c: ChangeV<'a>| #![trigger hasc(r@, c)] #![trigger object_has(*self.old_type_definition, *self.new_type_definition, c)] hasc(r@, c) <==> object_has(*self.old_type_definition, *self.new_type_definition, c)
//@ loop ~FieldAdded
@pushc $mut0 z: true =>> ChangeV::FieldAdded { ctx: self.old_type_definition.s_name(), f: *z }
//@ loop ~FieldRemoved
@pushc $mut0 z: true =>> ChangeV::FieldRemoved { ctx: self.old_type_definition.s_name(), f: *z }
//@ loop ~ObjectInterfaceAddition
@pushc $mut0 z: true =>> ChangeV::ObjectInterfaceAddition { ctx: self.old_type_definition.s_name(), i: *z }
//@ loop ~ObjectInterfaceRemoval
@pushc $mut0 z: true =>> ChangeV::ObjectInterfaceRemoval { ctx: self.old_type_definition.s_name(), i: *z }
//@ loop ~diff
@extc $mut0 z: first(self.new_type_definition.s_fields_definition()@, z.s_name()) is Some && field_has(self.old_type_definition.s_name(), z, first(self.new_type_definition.s_fields_definition()@, z.s_name())->0, __c)
//@ loop ~DirectiveAdded
@pushc $mut0 z: true =>> ChangeV::DirectiveAdded { loc: DirectiveLocation::Object, ctx: self.old_type_definition.s_name(), d: *z }
//@ loop ~DirectiveRemoved
@pushc $mut0 z: true =>> ChangeV::DirectiveRemoved { loc: DirectiveLocation::Object, ctx: self.old_type_definition.s_name(), d: *z }
//@ loop ~push !Change
@append $mut0
//@ loop *~
@first $up.s_name()
//@ attrs #[verifier::spinoff_prover]
//@ at start
proof { reveal(object_has); }
//@end
#[verifier::opaque]
pub open spec fn dd_has<'a>(o: DirectiveDefinition, n: DirectiveDefinition, c: ChangeV<'a>) -> bool { (match c {
    ChangeV::DirectiveDefinitionDescriptionChanged { d, e } => d == o && e == n && desc_differs(o.s_description(), n.s_description()),
    ChangeV::DirectiveDefinitionLocationAdded { ctx, l } => ctx == o.s_name() && n.s_locations()@.contains(l) && !o.s_locations()@.contains(l),
    ChangeV::DirectiveDefinitionLocationRemoved { ctx, l } => ctx == o.s_name() && o.s_locations()@.contains(l) && !n.s_locations()@.contains(l),
    ChangeV::DirectiveDefinitionArgumentAdded { ctx, a } => ctx == o.s_name() && n.s_arguments_definition().contains(a) && !named_in(o.s_arguments_definition(), a.s_name()),
    ChangeV::DirectiveDefinitionArgumentRemoved { ctx, a } => ctx == o.s_name() && o.s_arguments_definition().contains(a) && !named_in(n.s_arguments_definition(), a.s_name()),
    _ => false }) || common_dda_has(o.s_name(), o.s_arguments_definition(), n.s_arguments_definition(), c) }
//@item src=bluejay-schema-comparator/src/diff/directive_definition.rs name=DirectiveDefinitionDiff subst="< 'a , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-schema-comparator/src/diff/directive_definition.rs impl=DirectiveDefinitionDiff fn=new header="impl<'a> DirectiveDefinitionDiff<'a>"
    ensures r.old_directive_definition == $0, r.new_directive_definition == $1
//@end
//@fn src=bluejay-schema-comparator/src/diff/directive_definition.rs impl=DirectiveDefinitionDiff header="impl<'a> DirectiveDefinitionDiff<'a>" fn=argument_additions
    ensures forall|x: &InputValueDefinition| #![trigger r@.contains(x)] #![trigger self.new_directive_definition.s_arguments_definition().contains(*x)] r@.contains(x) <==> self.new_directive_definition.s_arguments_definition().contains(*x) && !named_in(self.old_directive_definition.s_arguments_definition(), x.s_name())
//@ sig fn argument_additions(&self) -> (r: ItV<&'a InputValueDefinition>)
//@ loop ~push
@push acc z: !named_in(self.old_directive_definition.s_arguments_definition(), z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/directive_definition.rs impl=DirectiveDefinitionDiff header="impl<'a> DirectiveDefinitionDiff<'a>" fn=argument_removals
    ensures forall|x: &InputValueDefinition| #![trigger r@.contains(x)] #![trigger self.old_directive_definition.s_arguments_definition().contains(*x)] r@.contains(x) <==> self.old_directive_definition.s_arguments_definition().contains(*x) && !named_in(self.new_directive_definition.s_arguments_definition(), x.s_name())
//@ sig fn argument_removals(&self) -> (r: ItV<&'a InputValueDefinition>)
//@ loop ~push
@push acc z: !named_in(self.new_directive_definition.s_arguments_definition(), z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/directive_definition.rs impl=DirectiveDefinitionDiff header="impl<'a> DirectiveDefinitionDiff<'a>" fn=location_additions
    ensures forall|x: &DirectiveLocation| #![trigger r@.contains(x)] #![trigger self.new_directive_definition.s_locations()@.contains(*x)] r@.contains(x) <==> self.new_directive_definition.s_locations()@.contains(*x) && !self.old_directive_definition.s_locations()@.contains(*x)
//@ sig fn location_additions(&self) -> (r: ItV<&'a DirectiveLocation>)
//@ loop ~push
@push acc z: !self.old_directive_definition.s_locations()@.contains(z) =>> &z
//@ loop *~!push
@any y: y == $up
//@end
//@fn src=bluejay-schema-comparator/src/diff/directive_definition.rs impl=DirectiveDefinitionDiff header="impl<'a> DirectiveDefinitionDiff<'a>" fn=location_removals
    ensures forall|x: &DirectiveLocation| #![trigger r@.contains(x)] #![trigger self.old_directive_definition.s_locations()@.contains(*x)] r@.contains(x) <==> self.old_directive_definition.s_locations()@.contains(*x) && !self.new_directive_definition.s_locations()@.contains(*x)
//@ sig fn location_removals(&self) -> (r: ItV<&'a DirectiveLocation>)
//@ loop ~push
@push acc z: !self.new_directive_definition.s_locations()@.contains(z) =>> &z
//@ loop *~!push
@any y: y == $up
//@end
//@fn src=bluejay-schema-comparator/src/diff/directive_definition.rs impl=DirectiveDefinitionDiff header="impl<'a> DirectiveDefinitionDiff<'a>" fn=diff
    requires self.old_directive_definition.s_name() == self.new_directive_definition.s_name()
    ensures forall|c: ChangeV<'a>| #![trigger hasc(r@, c)] #![trigger dd_has(*self.old_directive_definition, *self.new_directive_definition, c)] hasc(r@, c) <==> dd_has(*self.old_directive_definition, *self.new_directive_definition, c)
//@ loop ~DirectiveDefinitionLocationAdded
@pushc $mut0 z: true =>> ChangeV::DirectiveDefinitionLocationAdded { ctx: self.old_directive_definition.s_name(), l: *z }
//@ loop ~DirectiveDefinitionLocationRemoved
@pushc $mut0 z: true =>> ChangeV::DirectiveDefinitionLocationRemoved { ctx: self.old_directive_definition.s_name(), l: *z }
//@ loop ~DirectiveDefinitionArgumentAdded
@pushc $mut0 z: true =>> ChangeV::DirectiveDefinitionArgumentAdded { ctx: self.old_directive_definition.s_name(), a: *z }
//@ loop ~DirectiveDefinitionArgumentRemoved
@pushc $mut0 z: true =>> ChangeV::DirectiveDefinitionArgumentRemoved { ctx: self.old_directive_definition.s_name(), a: *z }
//@ loop ~diff
@extc $mut0 z: first(self.new_directive_definition.s_arguments_definition(), z.s_name()) is Some && dda_has(self.old_directive_definition.s_name(), z, first(self.new_directive_definition.s_arguments_definition(), z.s_name())->0, __c)
//@ loop *~
@first $up.s_name()
//@ attrs #[verifier::spinoff_prover]
//@ at start
proof { reveal(dd_has); }
//@end
#[verifier::opaque]
pub open spec fn type_has<'a>(o: TypeDefinitionReference<'a>, n: TypeDefinitionReference<'a>, c: ChangeV<'a>) -> bool {
    (match c {
        ChangeV::TypeKindChanged { t, u } => t == o && u == n && o.kind2() != n.kind2(),
        ChangeV::TypeDescriptionChanged { t, u } => t == o && u == n && desc_differs(o.s_description(), n.s_description()),
        _ => false })
    || (match (o, n) {
        (TypeDefinitionReference::Object(a), TypeDefinitionReference::Object(b)) => object_has(*a, *b, c),
        (TypeDefinitionReference::Enum(a), TypeDefinitionReference::Enum(b)) => enum_has(*a, *b, c),
        (TypeDefinitionReference::Union(a), TypeDefinitionReference::Union(b)) => union_has(*a, *b, c),
        (TypeDefinitionReference::Interface(a), TypeDefinitionReference::Interface(b)) => interface_has(*a, *b, c),
        (TypeDefinitionReference::InputObject(a), TypeDefinitionReference::InputObject(b)) => input_object_has(*a, *b, c),
        (TypeDefinitionReference::CustomScalar(a), TypeDefinitionReference::CustomScalar(b)) => dirs_has(a.s_directives(), b.s_directives(), DirectiveLocation::Scalar, a.s_name(), c),
        _ => false }) }
pub open spec fn common_types_has<'a>(o: Seq<TypeDefinitionReference<'a>>, n: Seq<TypeDefinitionReference<'a>>, c: ChangeV<'a>) -> bool { exists|i: int| 0 <= i < o.len() && first(n, (#[trigger] o[i]).s_name()) is Some && type_has(o[i], first(n, o[i].s_name())->0, c) }
pub open spec fn common_dd_has<'a>(o: Seq<DirectiveDefinition>, n: Seq<DirectiveDefinition>, c: ChangeV<'a>) -> bool { exists|i: int| 0 <= i < o.len() && first(n, (#[trigger] o[i]).s_name()) is Some && dd_has(o[i], first(n, o[i].s_name())->0, c) }
pub open spec fn no_name() -> Seq<char> { ""@ }
#[verifier::opaque]
pub open spec fn schema_has<'a>(o: &'a SchemaDefinition, n: &'a SchemaDefinition, c: ChangeV<'a>) -> bool {
    (match c {
        ChangeV::TypeRemoved { t } => o.s_type_definitions().contains(t) && !named_in(n.s_type_definitions(), t.s_name()),
        ChangeV::TypeAdded { t } => n.s_type_definitions().contains(t) && !named_in(o.s_type_definitions(), t.s_name()),
        ChangeV::DirectiveDefinitionRemoved { d } => o.s_directive_definitions().contains(d) && !named_in(n.s_directive_definitions(), d.s_name()),
        ChangeV::DirectiveDefinitionAdded { d } => n.s_directive_definitions().contains(d) && !named_in(o.s_directive_definitions(), d.s_name()),
        _ => false })
    || dirs_has(o.s_directives(), n.s_directives(), DirectiveLocation::Schema, no_name(), c)
    || common_types_has(o.s_type_definitions(), n.s_type_definitions(), c)
    || common_dd_has(o.s_directive_definitions(), n.s_directive_definitions(), c) }
//@item src=bluejay-schema-comparator/src/diff/schema.rs name=SchemaDiff subst="< 'a , S : SchemaDefinition > ==> < 'a >;;& 'a S ==> & 'a SchemaDefinition"
//@fn src=bluejay-schema-comparator/src/diff/schema.rs impl=SchemaDiff header="impl<'a> SchemaDiff<'a>" fn=new
    ensures r.old_schema_definition == $0, r.new_schema_definition == $1
//@ sig fn new($0: &'a SchemaDefinition, $1: &'a SchemaDefinition) -> (r: SchemaDiff<'a>)
//@end
//@fn src=bluejay-schema-comparator/src/diff/schema.rs impl=SchemaDiff header="impl<'a> SchemaDiff<'a>" fn=removed_types
    ensures forall|x: TypeDefinitionReference<'a>| #![trigger r@.contains(x)] #![trigger self.old_schema_definition.s_type_definitions().contains(x)] r@.contains(x) <==> self.old_schema_definition.s_type_definitions().contains(x) && !named_in(self.new_schema_definition.s_type_definitions(), x.s_name())
//@ sig fn removed_types(&self) -> (r: ItV<TypeDefinitionReference<'a>>)
//@ loop ~push
@push acc z: !named_in(self.new_schema_definition.s_type_definitions(), z.s_name()) =>> z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/schema.rs impl=SchemaDiff header="impl<'a> SchemaDiff<'a>" fn=added_types
    ensures forall|x: TypeDefinitionReference<'a>| #![trigger r@.contains(x)] #![trigger self.new_schema_definition.s_type_definitions().contains(x)] r@.contains(x) <==> self.new_schema_definition.s_type_definitions().contains(x) && !named_in(self.old_schema_definition.s_type_definitions(), x.s_name())
//@ sig fn added_types(&self) -> (r: ItV<TypeDefinitionReference<'a>>)
//@ loop ~push
@push acc z: !named_in(self.old_schema_definition.s_type_definitions(), z.s_name()) =>> z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/schema.rs impl=SchemaDiff header="impl<'a> SchemaDiff<'a>" fn=removed_directive_definitions
    ensures forall|x: &DirectiveDefinition| #![trigger r@.contains(x)] #![trigger self.old_schema_definition.s_directive_definitions().contains(*x)] r@.contains(x) <==> self.old_schema_definition.s_directive_definitions().contains(*x) && !named_in(self.new_schema_definition.s_directive_definitions(), x.s_name())
//@ sig fn removed_directive_definitions(&self) -> (r: ItV<&'a DirectiveDefinition>)
//@ loop ~push
@push acc z: !named_in(self.new_schema_definition.s_directive_definitions(), z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/schema.rs impl=SchemaDiff header="impl<'a> SchemaDiff<'a>" fn=added_directive_definitions
    ensures forall|x: &DirectiveDefinition| #![trigger r@.contains(x)] #![trigger self.new_schema_definition.s_directive_definitions().contains(*x)] r@.contains(x) <==> self.new_schema_definition.s_directive_definitions().contains(*x) && !named_in(self.old_schema_definition.s_directive_definitions(), x.s_name())
//@ sig fn added_directive_definitions(&self) -> (r: ItV<&'a DirectiveDefinition>)
//@ loop ~push
@push acc z: !named_in(self.old_schema_definition.s_directive_definitions(), z.s_name()) =>> &z
//@ loop *~!push
@any y: y.s_name() == $up.s_name()
//@end
//@fn src=bluejay-schema-comparator/src/diff/schema.rs impl=SchemaDiff header="impl<'a> SchemaDiff<'a>" fn=changes_in_type
    requires $0.s_name() == $1.s_name()
    ensures forall|c: ChangeV<'a>| #![trigger hasc(r@, c)] #![trigger type_has($0, $1, c)] hasc(r@, c) <==> type_has($0, $1, c)
//@ sig fn changes_in_type(&self, $0: TypeDefinitionReference<'a>, $1: TypeDefinitionReference<'a>) -> (r: Vec<Change<'a>>)
//@ loop ~DirectiveAdded
@pushc $mut0 z: true =>> ChangeV::DirectiveAdded { loc: DirectiveLocation::Scalar, ctx: $0.s_name(), d: *z }
//@ loop ~DirectiveRemoved
@pushc $mut0 z: true =>> ChangeV::DirectiveRemoved { loc: DirectiveLocation::Scalar, ctx: $0.s_name(), d: *z }
//@ loop ~push !Change
@append $mut0
//@ at start
proof { reveal(type_has); }
//@end
//@fn src=bluejay-schema-comparator/src/diff/schema.rs impl=SchemaDiff header="impl<'a> SchemaDiff<'a>" fn=diff
    ensures forall|c: ChangeV<'a>| #![trigger hasc(r@, c)] #![trigger schema_has(self.old_schema_definition, self.new_schema_definition, c)] hasc(r@, c) <==> schema_has(self.old_schema_definition, self.new_schema_definition, c)
//@ loop ~TypeRemoved
@pushc $mut0 z: true =>> ChangeV::TypeRemoved { t: z }
//@ loop ~TypeAdded
@pushc $mut0 z: true =>> ChangeV::TypeAdded { t: z }
//@ loop ~DirectiveDefinitionRemoved
@pushc $mut0 z: true =>> ChangeV::DirectiveDefinitionRemoved { d: *z }
//@ loop ~DirectiveDefinitionAdded
@pushc $mut0 z: true =>> ChangeV::DirectiveDefinitionAdded { d: *z }
//@ loop ~changes_in_type
@extc $mut0 z: first(self.new_schema_definition.s_type_definitions(), z.s_name()) is Some && type_has(z, first(self.new_schema_definition.s_type_definitions(), z.s_name())->0, __c)
//@ loop ~diff
@extc $mut0 z: first(self.new_schema_definition.s_directive_definitions(), z.s_name()) is Some && dd_has(z, first(self.new_schema_definition.s_directive_definitions(), z.s_name())->0, __c)
//@ loop ~DirectiveAdded
@pushc $mut0 z: true =>> ChangeV::DirectiveAdded { loc: DirectiveLocation::Schema, ctx: no_name(), d: *z }
//@ loop ~DirectiveRemoved
@pushc $mut0 z: true =>> ChangeV::DirectiveRemoved { loc: DirectiveLocation::Schema, ctx: no_name(), d: *z }
//@ loop ~push !Change
@append $mut0
//@ loop *~
@first $up.s_name()
//@ attrs #[verifier::spinoff_prover]
//@ at start
proof { reveal(schema_has); }
//@end
//@item src=bluejay-schema-comparator/src/result.rs name=ComparisonResult subst="< 'a , S : SchemaDefinition > ==> < 'a >;;Change < 'a , S > ==> Change < 'a >"
// sorts the changes by criticality (slice::sort_by_key permutes)
impl<'a> ComparisonResult<'a> { #[verifier::external_body] pub fn new(changes: Vec<Change<'a>>) -> (r: ComparisonResult<'a>)
    ensures forall|c: ChangeV<'a>| #![trigger hasc(r.changes@, c)] #![trigger hasc(changes@, c)] hasc(r.changes@, c) <==> hasc(changes@, c) { unimplemented!() } }
//@subst diff :: SchemaDiff ==> SchemaDiff
//@fn src=bluejay-schema-comparator/src/lib.rs fn=compare header=""
    ensures forall|c: ChangeV<'a>| #![trigger hasc(r.changes@, c)] #![trigger schema_has($0, $1, c)] hasc(r.changes@, c) <==> schema_has($0, $1, c)
//@ sig fn compare<'a>($0: &'a SchemaDefinition, $1: &'a SchemaDefinition) -> (r: ComparisonResult<'a>)
//@end
}
