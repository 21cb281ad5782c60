// P18: the driver of the operation analyzers: variable values, skip and include, and the events the analyzers are sent.
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@include std.inc
//@include core.inc
//@include types.inc
//@include values.inc
//@include typedefs.inc
//@include exec.inc
//@include coerror.inc
//@include validator.inc
//@include graph.inc
//@include op_spec.inc
//@include op_orch.inc
//@subst & 'a VV ==> & 'a VarValues
//@subst V :: ExtraInfo ==> V :: ExtraInfo
//@item src=bluejay-validator/src/executable/operation/orchestrator.rs name=Orchestrator subst="< 'a , E : ExecutableDocument , S : SchemaDefinition , VV : VariableValues , V : Visitor < 'a , E , S , VV > , > ==> < 'a , V : Visitor < 'a > >"
impl<'a, V: Visitor<'a>> Orchestrator<'a, V> { pub open spec fn z(&self) -> Env<'a> { Env { s: self.schema_definition, op: self.operation_definition, vv: self.variable_values, c: self.cache } }
    // everything but the visitor
    pub open spec fn same(&self, o: &Self) -> bool { self.z() == o.z() && self.currently_spread_fragments@ == o.currently_spread_fragments@ } }
//@item src=bluejay-validator/src/executable/operation/orchestrator.rs name=OperationResolutionError
pub mod vals { use super::*; broadcast use {base_lemmas, std_lemmas, len_lemmas};
//@fn src=bluejay-validator/src/executable/operation/variable_values.rs impl=OperationDefinitionValueEvaluationExt:T fn=evaluate_bool header="impl OperationDefinition"
    ensures r == s_bool(*self, $0.s_name(), *$1)
//@ sig fn evaluate_bool(&self, $0: &Variable, $1: &VarValues) -> (r: Option<bool>)
//@ loop ~variable
@base
except $acc is None
except vardef($s, $0.s_name(), "Boolean"@) == vardef($s.skip($k), $0.s_name(), "Boolean"@)
ensures is_opt($acc, vardef($s, $0.s_name(), "Boolean"@))
//@ loop ~key
@base
except $acc is None
except kv($s, $0.s_name()) == kv($s.skip($k), $0.s_name())
ensures is_ent($acc, kv($s, $0.s_name()))
//@end
//@fn src=bluejay-validator/src/executable/operation/variable_values.rs impl=OperationDefinitionValueEvaluationExt:T fn=evaluate_int header="impl OperationDefinition"
    ensures r == s_int(*self, $0.s_name(), *$1)
//@ sig fn evaluate_int(&self, $0: &Variable, $1: &VarValues) -> (r: Option<i32>)
//@ loop ~variable
@base
except $acc is None
except vardef($s, $0.s_name(), "Int"@) == vardef($s.skip($k), $0.s_name(), "Int"@)
ensures is_opt($acc, vardef($s, $0.s_name(), "Int"@))
//@ loop ~key
@base
except $acc is None
except kv($s, $0.s_name()) == kv($s.skip($k), $0.s_name())
ensures is_ent($acc, kv($s, $0.s_name()))
//@end
}
pub mod drive { use super::*; broadcast use {base_lemmas, std_lemmas, len_lemmas, runs};
//@fn src=bluejay-validator/src/executable/operation/orchestrator.rs impl=Orchestrator fn=evaluate_boolean_directive_argument_value header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    ensures r == dir_arg(*self.operation_definition, *self.variable_values, $0@, $1@, $2@)
//@ loop ~directive
@base
@first $1@
//@ loop ~arg
@base
@first $2@
//@end
//@fn src=bluejay-validator/src/executable/operation/orchestrator.rs impl=Orchestrator fn=evaluate_selection_inclusion header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    ensures *final(self) == *old(self), r == incl(*old(self).operation_definition, *old(self).variable_values, Some(*$0))
//@end
//@fn src=bluejay-validator/src/executable/operation/orchestrator.rs impl=Orchestrator fn=visit_variable_argument header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    requires okay::<V>(old(self).visitor.st(), one(OEv::Arg(*$0, *$1)))
    ensures final(self).same(old(self)), final(self).visitor.st() == run::<V>(old(self).visitor.st(), one(OEv::Arg(*$0, *$1)))
//@end
//@fn src=bluejay-validator/src/executable/operation/orchestrator.rs impl=Orchestrator fn=visit_variable_arguments header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    requires okay::<V>(old(self).visitor.st(), o_args($1@, $0@))
    ensures final(self).same(old(self)), final(self).visitor.st() == run::<V>(old(self).visitor.st(), o_args($1@, $0@))
//@ loop 0
@base
pre let ghost __l1 = self.visitor.st(); let ghost __f1 = |a: Argument<false>| o_arg($1@, a); proof { sum_ends($s, __f1); }
invariant self.same(old(self))
invariant okay::<V>(self.visitor.st(), sum($s.skip($k), __f1))
invariant run::<V>(self.visitor.st(), sum($s.skip($k), __f1)) == run::<V>(__l1, sum($s, __f1))
//@ at loop 0 start
proof { sum_step($s, $k, __f1); }
//@end
//@fn src=bluejay-validator/src/executable/operation/orchestrator.rs impl=Orchestrator fn=visit_variable_directive header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    requires okay::<V>(old(self).visitor.st(), o_dir(*old(self).schema_definition, *$0))
    ensures final(self).same(old(self)), final(self).visitor.st() == run::<V>(old(self).visitor.st(), o_dir(*old(self).schema_definition, *$0))
//@end
//@fn src=bluejay-validator/src/executable/operation/orchestrator.rs impl=Orchestrator fn=visit_variable_directives header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    requires okay::<V>(old(self).visitor.st(), o_dirs(*old(self).schema_definition, $0@))
    ensures final(self).same(old(self)), final(self).visitor.st() == run::<V>(old(self).visitor.st(), o_dirs(*old(self).schema_definition, $0@))
//@ loop 0
@base
pre let ghost __l1 = self.visitor.st(); let ghost __f1 = |d: Directive<false>| o_dir(*old(self).schema_definition, d); proof { sum_ends($s, __f1); }
invariant self.same(old(self))
invariant okay::<V>(self.visitor.st(), sum($s.skip($k), __f1))
invariant run::<V>(self.visitor.st(), sum($s.skip($k), __f1)) == run::<V>(__l1, sum($s, __f1))
//@ at loop 0 start
proof { sum_step($s, $k, __f1); }
//@end
//@fn src=bluejay-validator/src/executable/operation/orchestrator.rs impl=Orchestrator fn=visit_field header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    requires okay::<V>(old(self).visitor.st(), o_field(old(self).z(), *$0, *$1, $2, $3, old(self).currently_spread_fragments@))
    ensures final(self).same(old(self)), final(self).visitor.st() == run::<V>(old(self).visitor.st(), o_field(old(self).z(), *$0, *$1, $2, $3, old(self).currently_spread_fragments@))
    decreases fuel(old(self).cache, old(self).currently_spread_fragments@), (match $0.o_selection_set() { Some(y) => sdepth(y) + 1, None => 0 }), 1int
//@ loop *~visit_variable_argument
@base
pre let ghost __l1 = self.visitor.st(); let ghost __f1 = |a: Argument<false>| o_arg($1.o_arguments_definition()->0@, a); proof { sum_ends($s, __f1); }
invariant self.same(old(self))
invariant okay::<V>(self.visitor.st(), sum($s.skip($k), __f1))
invariant run::<V>(self.visitor.st(), sum($s.skip($k), __f1)) == run::<V>(__l1, sum($s, __f1))
//@ at loop *~visit_variable_argument start
proof { sum_step($s, $k, __f1); }
//@end
//@fn src=bluejay-validator/src/executable/operation/orchestrator.rs impl=Orchestrator fn=visit_inline_fragment header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    requires okay::<V>(old(self).visitor.st(), o_inline(old(self).z(), *$0, $1, $2, old(self).currently_spread_fragments@))
    ensures final(self).same(old(self)), final(self).visitor.st() == run::<V>(old(self).visitor.st(), o_inline(old(self).z(), *$0, $1, $2, old(self).currently_spread_fragments@))
    decreases fuel(old(self).cache, old(self).currently_spread_fragments@), sdepth($0.s_selection_set()) + 1, 1int
//@end
//@fn src=bluejay-validator/src/executable/operation/orchestrator.rs impl=Orchestrator fn=visit_fragment_spread header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    requires okay::<V>(old(self).visitor.st(), o_spread(old(self).z(), *$0, $1, old(self).currently_spread_fragments@))
    ensures final(self).same(old(self)), final(self).visitor.st() == run::<V>(old(self).visitor.st(), o_spread(old(self).z(), *$0, $1, old(self).currently_spread_fragments@))
    decreases fuel(old(self).cache, old(self).currently_spread_fragments@), 0int, 1int
//@ at start
broadcast use cached; let ghost __c = self.currently_spread_fragments@;
proof { assert(__c.contains($0.s_name()) ==> __c.insert($0.s_name()) =~= __c); if !__c.contains($0.s_name()) { assert(__c.insert($0.s_name()).remove($0.s_name()) =~= __c); if names(self.cache).contains($0.s_name()) { fuel_less(self.cache, $0.s_name(), __c); } } }
//@end
//@fn src=bluejay-validator/src/executable/operation/orchestrator.rs impl=Orchestrator fn=visit_selection_set header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    requires okay::<V>(old(self).visitor.st(), o_set(old(self).z(), *$0, $1, $2, old(self).currently_spread_fragments@))
    ensures final(self).same(old(self)), final(self).visitor.st() == run::<V>(old(self).visitor.st(), o_set(old(self).z(), *$0, $1, $2, old(self).currently_spread_fragments@))
    decreases fuel(old(self).cache, old(self).currently_spread_fragments@), sdepth(*$0) + 1, 0int
//@ at start
hide(o_from); broadcast use sdepth_sub;
//@ loop 0
@base
pre let ghost __z = old(self).z(); let ghost __c = old(self).currently_spread_fragments@; proof { o_from_end(__z, *$0, $1, $2, __c); }
invariant self.same(old(self))
invariant okay::<V>(self.visitor.st(), o_from(__z, *$0, $k, $1, $2, __c))
invariant run::<V>(self.visitor.st(), o_from(__z, *$0, $k, $1, $2, __c)) == run::<V>(old(self).visitor.st(), o_set(__z, *$0, $1, $2, __c))
//@ at loop 0 start
proof { o_from_step(__z, *$0, $k, $1, $2, __c); }
//@end
//@fn src=bluejay-validator/src/executable/operation/orchestrator.rs impl=Orchestrator fn=visit_operation_definition header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    requires roots_defined(*old(self).schema_definition), old(self).currently_spread_fragments@ == Set::<Seq<char>>::empty(), $0 == old(self).operation_definition, okay::<V>(old(self).visitor.st(), o_op(old(self).z()))
    ensures final(self).same(old(self)), final(self).visitor.st() == run::<V>(old(self).visitor.st(), o_op(old(self).z()))
//@ at start
proof { let __r = root_of(*old(self).schema_definition, $0.s_operation_type()); if __r is Some { assert(named_in(old(self).schema_definition.s_type_definitions(), __r->0.s_name())); first_has(old(self).schema_definition.s_type_definitions(), __r->0.s_name()); } }
//@ loop ~visit_variable_definition
@base
pre let ghost __l1 = self.visitor.st(); let ghost __f1 = |v: VariableDefinition| one(OEv::Var(v)); proof { sum_ends($s, __f1); }
invariant self.same(old(self))
invariant okay::<V>(self.visitor.st(), sum($s.skip($k), __f1))
invariant run::<V>(self.visitor.st(), sum($s.skip($k), __f1)) == run::<V>(__l1, sum($s, __f1))
//@ at loop ~visit_variable_definition start
proof { sum_step($s, $k, __f1); }
//@end
//@fn src=bluejay-validator/src/executable/operation/orchestrator.rs impl=Orchestrator fn=visit header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    requires roots_defined(*old(self).schema_definition), old(self).currently_spread_fragments@ == Set::<Seq<char>>::empty(), okay::<V>(old(self).visitor.st(), o_op(old(self).z()))
    ensures final(self).same(old(self)), final(self).visitor.st() == run::<V>(old(self).visitor.st(), o_op(old(self).z()))
//@end
//@fn src=bluejay-validator/src/executable/operation/orchestrator.rs impl=Orchestrator fn=new header="impl<'a, V: Visitor<'a>> Orchestrator<'a, V>"
    ensures r.z() == (Env { s: $1, op: $0, vv: $2, c: $3 }), r.currently_spread_fragments@ == Set::<Seq<char>>::empty(), r.visitor.st() == V::s0(r.z(), $4)
//@end
//@fn src=bluejay-validator/src/executable/operation/orchestrator.rs impl=Orchestrator fn=analyze header="impl<'a, V: Analyzer<'a>> Orchestrator<'a, V>"
    requires roots_defined(*$1), match chosen($0.s_operation_definitions(), $2) { Some(o) => { let z = Env { s: $1, op: &o, vv: $3, c: $4 }; okay::<V>(V::s0(z, $5), o_op(z)) }, None => true }
    ensures match chosen($0.s_operation_definitions(), $2) { Some(o) => { let z = Env { s: $1, op: &o, vv: $3, c: $4 }; r is Ok && V::out(run::<V>(V::s0(z, $5), o_op(z)), r->Ok_0) }, None => r is Err }
//@ sig fn analyze<'b>($0: &'a ExecutableDocument, $1: &'a SchemaDefinition, $2: Option<&'b str>, $3: &'a VarValues, $4: &'a Cache<'a>, $5: V::ExtraInfo) -> (r: Result<V::Output, OperationResolutionError<'b>>)
//@ subst let [$p] : $t = executable_document . operation_definitions () . collect :: < Vec < _ > > () . as_slice () . try_into () . map_err (| _ | $e :: $f) ? ==> let $p = match sole(executable_document.operation_definitions()) { Some(x) => x, None => return Err($e :: $f) }
//@ at start
let ghost __on = $2;
//@ loop ~operation_definition
@base
except $acc is None
except op_named($s, __on->0@) == op_named($s.skip($k), __on->0@)
ensures is_opt($acc, op_named($s, __on->0@))
//@end
}
} // verus!
fn main() {}
