//@include cmp_subst.inc
pub open spec fn level(c: Criticality) -> int { match c { Criticality::Safe { .. } => 0, Criticality::Dangerous { .. } => 1, Criticality::Breaking { .. } => 2 } }
// every value of `new` is a value of `old`, for types with the same list structure and base
pub open spec fn out_covariant(old: TyV, new: TyV) -> bool decreases old {
    match (old, new) {
        (TyV::Base(a, p), TyV::Base(b, q)) => a == b && (p ==> q),
        (TyV::List(a, p), TyV::List(b, q)) => (p ==> q) && out_covariant(*a, *b),
        _ => false,
    }
}
// every value accepted by `old` is accepted by `new`
pub open spec fn in_contravariant(old: TyV, new: TyV) -> bool { out_covariant(new, old) }
pub open spec fn spec_level(c: Change<'_>) -> int {
    match c {
        Change::TypeRemoved { .. } | Change::TypeKindChanged { .. } | Change::FieldRemoved { .. } | Change::FieldArgumentRemoved { .. }
        | Change::ObjectInterfaceRemoval { .. } | Change::EnumValueRemoved { .. } | Change::UnionMemberRemoved { .. } | Change::InputFieldRemoved { .. }
        | Change::DirectiveDefinitionRemoved { .. } | Change::DirectiveDefinitionLocationRemoved { .. } | Change::DirectiveDefinitionArgumentRemoved { .. }
        | Change::DirectiveRemoved { .. } => 2,
        Change::FieldTypeChanged { old_field_definition, new_field_definition, .. } =>
            if out_covariant(old_field_definition.s_type_().v(), new_field_definition.s_type_().v()) { 0 } else { 2 },
        Change::FieldArgumentTypeChanged { old_argument_definition, new_argument_definition, .. } =>
            if in_contravariant(old_argument_definition.s_type_().v(), new_argument_definition.s_type_().v()) { 0 } else { 2 },
        Change::InputFieldTypeChanged { old_field_definition, new_field_definition, .. } =>
            if in_contravariant(old_field_definition.s_type_().v(), new_field_definition.s_type_().v()) { 0 } else { 2 },
        Change::DirectiveDefinitionArgumentTypeChanged { old_argument_definition, new_argument_definition, .. } =>
            if in_contravariant(old_argument_definition.s_type_().v(), new_argument_definition.s_type_().v()) { 0 } else { 2 },
        Change::FieldArgumentAdded { argument_definition, .. } => if argument_definition.s_is_required() { 2 } else { 0 },
        Change::InputFieldAdded { added_field_definition, .. } => if added_field_definition.s_is_required() { 2 } else { 0 },
        Change::DirectiveDefinitionArgumentAdded { argument_definition, .. } => if argument_definition.s_is_required() { 2 } else { 0 },
        Change::FieldArgumentDefaultValueChanged { .. } | Change::InputFieldDefaultValueChanged { .. } | Change::DirectiveDefinitionArgumentDefaultValueChanged { .. }
        | Change::ObjectInterfaceAddition { .. } | Change::EnumValueAdded { .. } | Change::UnionMemberAdded { .. } => 1,
        _ => 0,
    }
}
//@fn src=bluejay-schema-comparator/src/changes.rs impl=Criticality fn=breaking
    ensures level(r) == 2
//@end
//@fn src=bluejay-schema-comparator/src/changes.rs impl=Criticality fn=dangerous
    ensures level(r) == 1
//@end
//@fn src=bluejay-schema-comparator/src/changes.rs impl=Criticality fn=safe
    ensures level(r) == 0
//@end
//@fn src=bluejay-schema-comparator/src/changes.rs impl=Criticality fn=is_breaking
    ensures r == (level(*self) == 2)
//@end
//@fn src=bluejay-schema-comparator/src/changes.rs impl=Criticality fn=is_dangerous
    ensures r == (level(*self) == 1)
//@end
//@fn src=bluejay-schema-comparator/src/changes.rs impl=Criticality fn=is_safe
    ensures r == (level(*self) == 0)
//@end
//@fn src=bluejay-schema-comparator/src/changes.rs fn=is_change_safe_for_field header="" 
    ensures r == out_covariant($0.v(), $1.v()) decreases ty_depth($0.v())
//@ sig fn is_change_safe_for_field(old_type: ShallowOutputTypeReference<'_>, new_type: ShallowOutputTypeReference<'_>) -> (r: bool)
//@end
//@fn src=bluejay-schema-comparator/src/changes.rs fn=is_change_safe_for_input_value header=""
    ensures r == in_contravariant($0.v(), $1.v()) decreases ty_depth($0.v())
//@ sig fn is_change_safe_for_input_value(old_type: ShallowInputTypeReference<'_>, new_type: ShallowInputTypeReference<'_>) -> (r: bool)
//@end
//@fn src=bluejay-schema-comparator/src/changes.rs impl=Change fn=criticality header="impl<'a> Change<'a>" anyloops
    ensures level(r) == spec_level(*self)
//@ loop 0
@any d: d.s_name() == "deprecated"@
//@end
//@fn src=bluejay-schema-comparator/src/changes.rs impl=Change fn=breaking header="impl<'a> Change<'a>"
    ensures r == (spec_level(*self) == 2)
//@end
//@fn src=bluejay-schema-comparator/src/changes.rs impl=Change fn=dangerous header="impl<'a> Change<'a>"
    ensures r == (spec_level(*self) == 1)
//@end
//@fn src=bluejay-schema-comparator/src/changes.rs impl=Change fn=non_breaking header="impl<'a> Change<'a>"
    ensures r == (spec_level(*self) == 0)
//@end
