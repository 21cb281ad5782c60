// P11: arguments exist, are unique, and required ones are present.
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@include std.inc
//@include core.inc
//@include types.inc
//@include values.inc
//@include typedefs.inc
//@include exec.inc
//@include coerror.inc
//@include validator.inc
//@include dups.inc
//@method unwrap_or_default/0 ==> or_empty($self)
//@method zip/1 ==> opt_zip($self, $1)
//@rtype opt_zip=opt
//@known or_empty opt_zip
pub open spec fn args_of<const C: bool>(o: Option<&List<Argument<C>>>) -> Seq<Argument<C>> { match o { Some(l) => l@, None => Seq::empty() } }
// a required argument without a default value that is not given
pub open spec fn lacks<const C: bool>(d: InputValueDefinition, a: Seq<Argument<C>>) -> bool { ty_required(d.s_type_().v()) && d.s_default_value() is None && !named_in(a, d.s_name()) }
pub open spec fn missing<const C: bool>(d: Seq<InputValueDefinition>, a: Seq<Argument<C>>) -> bool { exists|i: int| #![trigger d[i]] 0 <= i < d.len() && lacks(d[i], a) }
// an argument that the definition does not have
pub open spec fn unknown<const C: bool>(d: Seq<InputValueDefinition>, a: Seq<Argument<C>>) -> bool { exists|i: int| #![trigger a[i]] 0 <= i < a.len() && !named_in(d, a[i].s_name()) }
pub open spec fn defs_of(o: Option<&List<InputValueDefinition>>) -> Seq<InputValueDefinition> { match o { Some(l) => l@, None => Seq::empty() } }
pub fn or_empty<'a, const C: bool>(o: Option<HashMap<&'a str, &'a Argument<C>>>) -> (r: HashMap<&'a str, &'a Argument<C>>) ensures r@ == (match o { Some(m) => m@, None => Map::<Seq<char>, &'a Argument<C>>::empty() }) { match o { Some(m) => m, None => HashMap::new() } }
pub fn opt_zip<A, B>(a: Option<A>, b: Option<B>) -> (r: Option<(A, B)>) ensures r == (match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None::<(A, B)> }) { match a { Some(x) => match b { Some(y) => Some((x, y)), None => None }, None => None } }
pub mod rules { use super::*; broadcast use {base_lemmas, std_lemmas, len_lemmas, named_push};
//@item src=bluejay-validator/src/executable/document/rules/required_arguments.rs name=RequiredArguments subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/required_arguments.rs impl=RequiredArguments fn=visit_arguments header="impl<'a> RequiredArguments<'a>" closures
    requires forall|x: Vec<&'a InputValueDefinition>| #[trigger] $2.requires((x,))
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, match $1 { Some(d) => missing(d@, args_of($0)), None => false })
//@ loop ~insert
@base
invariant forall|n: Seq<char>| #![trigger $acc@.contains_key(n)] $acc@.contains_key(n) <==> named_in($s.take($k), n)
//@ loop ~is_required
@grow acc z: lacks(z, args_of($0))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/required_arguments.rs impl=Visitor:RequiredArguments fn=new header="impl<'a> RequiredArguments<'a>"
    ensures r.errors@.len() == 0, *r.schema_definition == *$1
//@end
//@fn src=bluejay-validator/src/executable/document/rules/required_arguments.rs impl=RequiredArguments fn=visit_directive header="impl<'a> RequiredArguments<'a>" closures
    requires forall|x: ArgumentError<'a, CONST>| #[trigger] $1.requires((x,))
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, match first(old(self).schema_definition.s_directive_definitions(), $0.s_name()) { Some(d) => match d.o_arguments_definition() { Some(l) => missing(l@, olist($0.o_arguments())), None => false }, None => false })
//@end
//@fn src=bluejay-validator/src/executable/document/rules/required_arguments.rs impl=Visitor:RequiredArguments fn=visit_field header="impl<'a> RequiredArguments<'a>" closures
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, match $1.o_arguments_definition() { Some(l) => missing(l@, olist($0.o_arguments())), None => false })
//@end
//@fn src=bluejay-validator/src/executable/document/rules/required_arguments.rs impl=Visitor:RequiredArguments fn=visit_variable_directive header="impl<'a> RequiredArguments<'a>" closures
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, match first(old(self).schema_definition.s_directive_definitions(), $0.s_name()) { Some(d) => match d.o_arguments_definition() { Some(l) => missing(l@, olist($0.o_arguments())), None => false }, None => false })
//@end
//@fn src=bluejay-validator/src/executable/document/rules/required_arguments.rs impl=Visitor:RequiredArguments fn=visit_const_directive header="impl<'a> RequiredArguments<'a>" closures
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, match first(old(self).schema_definition.s_directive_definitions(), $0.s_name()) { Some(d) => match d.o_arguments_definition() { Some(l) => missing(l@, olist($0.o_arguments())), None => false }, None => false })
//@end
//@fn src=bluejay-validator/src/executable/document/rules/required_arguments.rs impl=Rule:RequiredArguments fn=into_errors header="impl<'a> RequiredArguments<'a>"
    ensures r@ == self.errors@
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@end
//@item src=bluejay-validator/src/executable/document/rules/argument_names.rs name=ArgumentNames subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/argument_names.rs impl=Visitor:ArgumentNames fn=new header="impl<'a> ArgumentNames<'a>"
    ensures r.errors@.len() == 0, *r.schema_definition == *$1
//@end
//@fn src=bluejay-validator/src/executable/document/rules/argument_names.rs impl=ArgumentNames fn=visit_arguments header="impl<'a> ArgumentNames<'a>" closures
    requires forall|x: &'a Argument<CONST>| #[trigger] $2.requires((x,))
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, unknown(defs_of($1), args_of($0)))
//@ loop ~name
@first $up.s_name()
//@ loop ~build_error
@grow self.errors z: !named_in(defs_of($1), z.s_name())
//@end
//@fn src=bluejay-validator/src/executable/document/rules/argument_names.rs impl=ArgumentNames fn=visit_directive header="impl<'a> ArgumentNames<'a>" closures
    requires forall|x: ArgumentError<'a, CONST>| #[trigger] $1.requires((x,))
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, match first(old(self).schema_definition.s_directive_definitions(), $0.s_name()) { Some(d) => unknown(olist(d.o_arguments_definition()), olist($0.o_arguments())), None => false })
//@end
//@fn src=bluejay-validator/src/executable/document/rules/argument_names.rs impl=Visitor:ArgumentNames fn=visit_field header="impl<'a> ArgumentNames<'a>" closures
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, unknown(olist($1.o_arguments_definition()), olist($0.o_arguments())))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/argument_names.rs impl=Visitor:ArgumentNames fn=visit_variable_directive header="impl<'a> ArgumentNames<'a>" closures
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, match first(old(self).schema_definition.s_directive_definitions(), $0.s_name()) { Some(d) => unknown(olist(d.o_arguments_definition()), olist($0.o_arguments())), None => false })
//@end
//@fn src=bluejay-validator/src/executable/document/rules/argument_names.rs impl=Visitor:ArgumentNames fn=visit_const_directive header="impl<'a> ArgumentNames<'a>" closures
    ensures final(self).schema_definition == old(self).schema_definition,
        grew(old(self).errors@, final(self).errors@, match first(old(self).schema_definition.s_directive_definitions(), $0.s_name()) { Some(d) => unknown(olist(d.o_arguments_definition()), olist($0.o_arguments())), None => false })
//@end
//@fn src=bluejay-validator/src/executable/document/rules/argument_names.rs impl=Rule:ArgumentNames fn=into_errors header="impl<'a> ArgumentNames<'a>"
    ensures r@ == self.errors@
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@end
//@item src=bluejay-validator/src/executable/document/rules/argument_uniqueness.rs name=ArgumentUniqueness subst="< 'a , E : ExecutableDocument , S : SchemaDefinition > ==> < 'a >"
//@fn src=bluejay-validator/src/executable/document/rules/argument_uniqueness.rs impl=Visitor:ArgumentUniqueness fn=new header="impl<'a> ArgumentUniqueness<'a>"
    ensures r.errors@.len() == 0
//@end
//@fn src=bluejay-validator/src/executable/document/rules/argument_uniqueness.rs impl=ArgumentUniqueness fn=visit_arguments header="impl<'a> ArgumentUniqueness<'a>" closures
    requires forall|x: ArgumentError<'a, CONST>| #[trigger] $1.requires((x,))
    ensures grew(old(self).errors@, final(self).errors@, dup(args_of($0)))
//@ subst Argument :: name ==> Argument :: < CONST > :: name
//@ loop ~build_error
@grow self.errors z: true
//@end
//@fn src=bluejay-validator/src/executable/document/rules/argument_uniqueness.rs impl=Visitor:ArgumentUniqueness fn=visit_field header="impl<'a> ArgumentUniqueness<'a>" closures
    ensures grew(old(self).errors@, final(self).errors@, dup(olist($0.o_arguments())))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/argument_uniqueness.rs impl=Visitor:ArgumentUniqueness fn=visit_variable_directive header="impl<'a> ArgumentUniqueness<'a>" closures
    ensures grew(old(self).errors@, final(self).errors@, dup(olist($0.o_arguments())))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/argument_uniqueness.rs impl=Visitor:ArgumentUniqueness fn=visit_const_directive header="impl<'a> ArgumentUniqueness<'a>" closures
    ensures grew(old(self).errors@, final(self).errors@, dup(olist($0.o_arguments())))
//@end
//@fn src=bluejay-validator/src/executable/document/rules/argument_uniqueness.rs impl=Rule:ArgumentUniqueness fn=into_errors header="impl<'a> ArgumentUniqueness<'a>"
    ensures r@ == self.errors@
//@ sig fn into_errors(self) -> (r: ItV<Error<'a>>)
//@end
}
} // verus!
fn main() {}
