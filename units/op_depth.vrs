// P16: the depth counter, and what it computes over the events of an operation.
#![allow(unused, non_snake_case, non_shorthand_field_patterns)]
use vstd::prelude::*;
verus! {
//@include base.inc
//@include std.inc
//@include core.inc
//@include types.inc
//@include values.inc
//@include typedefs.inc
//@include exec.inc
//@include coerror.inc
//@include validator.inc
//@include graph.inc
//@include op_spec.inc
//@include op_orch.inc
//@method max/1 ==> max($self, $1)
//@subst std :: cmp :: max ==> max
//@subst cmp :: max ==> max
//@item src=bluejay-validator/src/executable/operation/analyzers/query_depth.rs name=QueryDepth
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub mod depthspec { use super::*;
impl QueryDepth { pub open spec fn d(&self) -> (int, int) { (self.current_depth as int, self.max_depth as int) } }
pub open spec fn mx(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn dnx<'a>(s: (int, int), e: OEv<'a>) -> (int, int) { match e { OEv::Enter(_, _, _, i) => if i { (s.0 + 1, mx(s.1, s.0 + 1)) } else { s }, OEv::Leave(_, _, _, i) => if i { (s.0 - 1, s.1) } else { s }, _ => s } }
pub open spec fn dcan<'a>(s: (int, int), e: OEv<'a>) -> bool { match e { OEv::Enter(_, _, _, i) => i ==> s.0 + 1 <= usize::MAX, OEv::Leave(_, _, _, i) => i ==> s.0 >= 1, _ => true } }
// the deepest nesting of included fields
pub open spec fn q_from<'a>(z: Env<'a>, x: List<Selection>, k: int, t: TypeDefinitionReference<'a>, i: bool, cur: Set<Seq<char>>) -> int decreases fuel(z.c, cur), sdepth(x), x@.len() - k via q_from_dec {
    if !i || k < 0 || k >= x@.len() { 0 } else { mx(match x@[k].r() {
        SelectionReference::Field(f) => match t.o_fields_definition() { Some(d) => match first(d@, f.s_name()) { Some(d) => if incl(*z.op, *z.vv, f.o_directives()) {
            1 + (match f.o_selection_set() { Some(y) => match first(z.s.s_type_definitions(), ty_base(d.s_type_().v())) { Some(t2) => q_from(z, y, 0, t2, true, cur), None => 0 }, None => 0 }) } else { 0 }, None => 0 }, None => 0 },
        SelectionReference::InlineFragment(f) => match cond_type(z.s, f.s_type_condition(), t) { Some(t2) => q_from(z, f.s_selection_set(), 0, t2, incl(*z.op, *z.vv, f.o_directives()), cur), None => 0 },
        SelectionReference::FragmentSpread(f) => match frag_of(z.c, f.s_name(), cur) { Some(g) => match first(z.s.s_type_definitions(), g.s_type_condition()) { Some(t2) => q_from(z, g.s_selection_set(), 0, t2, incl(*z.op, *z.vv, f.o_directives()), cur.insert(f.s_name())), None => 0 }, None => 0 },
    }, q_from(z, x, k + 1, t, true, cur)) }
}
#[via_fn] proof fn q_from_dec<'a>(z: Env<'a>, x: List<Selection>, k: int, t: TypeDefinitionReference<'a>, i: bool, cur: Set<Seq<char>>) { broadcast use sdepth_sub; if 0 <= k < x@.len() { match x@[k].r() { SelectionReference::FragmentSpread(f) => { if frag_of(z.c, f.s_name(), cur) is Some { fuel_less(z.c, f.s_name(), cur); } } _ => {} } } }
pub open spec fn q_op<'a>(z: Env<'a>) -> int { match root_of(*z.s, z.op.s_operation_type()) { Some(t) => q_from(z, z.op.s_selection_set(), 0, first(z.s.s_type_definitions(), t.s_name())->0, true, Set::empty()), None => 0 } }
}
pub use depthspec::*;
pub mod glue { use super::*;
impl<'a> Visitor<'a> for QueryDepth { type ExtraInfo = (); type St = (int, int);
    open spec fn st(&self) -> (int, int) { self.d() }
    open spec fn s0(z: Env<'a>, x: ()) -> (int, int) { (0, 0) }
    open spec fn nx(s: (int, int), e: OEv<'a>) -> (int, int) { dnx(s, e) }
    open spec fn can(s: (int, int), e: OEv<'a>) -> bool { dcan(s, e) }
    fn new(o: &'a OperationDefinition, s: &'a SchemaDefinition, v: &'a VarValues, c: &'a Cache<'a>, x: ()) -> (r: Self) { Self::q_new(o, s, v, c, x) }
    fn visit_variable_argument(&mut self, x: &'a Argument<false>, d: &'a InputValueDefinition) { self.q_arg(x, d) }
    fn visit_field(&mut self, x: &'a Field, d: &'a FieldDefinition, t: TypeDefinitionReference<'a>, i: bool) { self.q_enter(x, d, t, i) }
    fn leave_field(&mut self, x: &'a Field, d: &'a FieldDefinition, t: TypeDefinitionReference<'a>, i: bool) { self.q_leave(x, d, t, i) }
    fn visit_variable_definition(&mut self, x: &'a VariableDefinition) { self.q_var(x) }
}
impl<'a> Analyzer<'a> for QueryDepth { type Output = usize;
    open spec fn out(s: (int, int), o: usize) -> bool { o == s.1 }
    fn into_output(self) -> (r: usize) { self.q_out() }
}
}
pub use glue::*;
pub mod counter { use super::*;
//@fn src=bluejay-validator/src/executable/operation/analyzers/query_depth.rs impl=Visitor:QueryDepth fn=new as=q_new header="impl QueryDepth"
    ensures r.d() == (0int, 0int)
//@ sig fn q_new<'a>($0: &'a OperationDefinition, $1: &'a SchemaDefinition, $2: &'a VarValues, $3: &'a Cache<'a>, $4: ()) -> (r: Self)
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/query_depth.rs orsrc=bluejay-validator/src/executable/operation/visitor.rs impl=Visitor:QueryDepth fn=visit_field as=q_enter header="impl QueryDepth"
    requires $3 ==> old(self).d().0 + 1 <= usize::MAX
    ensures final(self).d() == (if $3 { (old(self).d().0 + 1, mx(old(self).d().1, old(self).d().0 + 1)) } else { old(self).d() })
//@ sig fn q_enter<'a>(&mut self, $0: &'a Field, $1: &'a FieldDefinition, $2: TypeDefinitionReference<'a>, $3: bool)
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/query_depth.rs orsrc=bluejay-validator/src/executable/operation/visitor.rs impl=Visitor:QueryDepth fn=leave_field as=q_leave header="impl QueryDepth"
    requires $3 ==> old(self).d().0 >= 1
    ensures final(self).d() == (if $3 { (old(self).d().0 - 1, old(self).d().1) } else { old(self).d() })
//@ sig fn q_leave<'a>(&mut self, $0: &'a Field, $1: &'a FieldDefinition, $2: TypeDefinitionReference<'a>, $3: bool)
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/query_depth.rs orsrc=bluejay-validator/src/executable/operation/visitor.rs impl=Visitor:QueryDepth fn=visit_variable_argument as=q_arg header="impl QueryDepth"
    ensures final(self).d() == old(self).d()
//@ sig fn q_arg<'a>(&mut self, $0: &'a Argument<false>, $1: &'a InputValueDefinition)
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/query_depth.rs orsrc=bluejay-validator/src/executable/operation/visitor.rs impl=Visitor:QueryDepth fn=visit_variable_definition as=q_var header="impl QueryDepth"
    ensures final(self).d() == old(self).d()
//@ sig fn q_var<'a>(&mut self, $0: &'a VariableDefinition)
//@end
//@fn src=bluejay-validator/src/executable/operation/analyzers/query_depth.rs impl=Analyzer:QueryDepth fn=into_output as=q_out header="impl QueryDepth"
    ensures r == self.d().1
//@ sig fn q_out(self) -> (r: usize)
//@end
}
// the counter over the events of an operation gives the depth of the operation
pub mod meaning { use super::*; broadcast use {runs};
pub proof fn args_quiet<'a>(s: (int, int), d: Seq<InputValueDefinition>, a: Seq<Argument<false>>) ensures okay::<QueryDepth>(s, o_args(d, a)), run::<QueryDepth>(s, o_args(d, a)) == s decreases a.len() { if a.len() > 0 { let f = |a: Argument<false>| o_arg(d, a); assert(o_args(d, a) == o_arg(d, a[0]) + sum(a.skip(1), f)); args_quiet(s, d, a.skip(1)); assert(sum(a.skip(1), f) == o_args(d, a.skip(1))); } }
pub proof fn dirs_quiet<'a>(s: (int, int), c: SchemaDefinition, a: Seq<Directive<false>>) ensures okay::<QueryDepth>(s, o_dirs(c, a)), run::<QueryDepth>(s, o_dirs(c, a)) == s decreases a.len() {
    if a.len() > 0 { let f = |d: Directive<false>| o_dir(c, d); assert(o_dirs(c, a) == o_dir(c, a[0]) + sum(a.skip(1), f)); dirs_quiet(s, c, a.skip(1)); assert(sum(a.skip(1), f) == o_dirs(c, a.skip(1))); 
        match (a[0].o_arguments(), odefs(c, a[0].s_name())) { (Some(x), Some(y)) => { args_quiet(s, y, x@); } _ => {} } } }
pub proof fn vars_quiet<'a>(s: (int, int), a: Seq<VariableDefinition>) ensures okay::<QueryDepth>(s, o_vars(a)), run::<QueryDepth>(s, o_vars(a)) == s decreases a.len() { if a.len() > 0 { let f = |v: VariableDefinition| one(OEv::Var(v)); assert(o_vars(a) == one(OEv::Var(a[0])) + sum(a.skip(1), f)); vars_quiet(s, a.skip(1)); assert(sum(a.skip(1), f) == o_vars(a.skip(1))); } }
pub proof fn from_quiet<'a>(s: (int, int), c: SchemaDefinition, f: Option<List<Directive<false>>>) ensures okay::<QueryDepth>(s, oo_dirs(c, f)), run::<QueryDepth>(s, oo_dirs(c, f)) == s { match f { Some(l) => dirs_quiet(s, c, l@), None => {} } }
pub proof fn fargs_quiet<'a>(s: (int, int), f: Field, d: FieldDefinition) ensures okay::<QueryDepth>(s, o_fargs(f, d)), run::<QueryDepth>(s, o_fargs(f, d)) == s { match (f.o_arguments(), d.o_arguments_definition()) { (Some(a), Some(l)) => args_quiet(s, l@, a@), _ => {} } }
pub proof fn q_nat<'a>(z: Env<'a>, x: List<Selection>, k: int, t: TypeDefinitionReference<'a>, i: bool, cur: Set<Seq<char>>) ensures q_from(z, x, k, t, i, cur) >= 0 decreases x@.len() - k { if i && 0 <= k < x@.len() { q_nat(z, x, k + 1, t, i, cur); } }
pub proof fn depth_of<'a>(z: Env<'a>, x: List<Selection>, k: int, t: TypeDefinitionReference<'a>, i: bool, cur: Set<Seq<char>>, s: (int, int))
    requires s.0 >= 0, s.1 >= s.0, s.0 + q_from(z, x, k, t, i, cur) <= usize::MAX, 0 <= k <= x@.len()
    ensures okay::<QueryDepth>(s, o_from(z, x, k, t, i, cur)), run::<QueryDepth>(s, o_from(z, x, k, t, i, cur)) == (s.0, mx(s.1, s.0 + q_from(z, x, k, t, i, cur)))
    decreases fuel(z.c, cur), sdepth(x), x@.len() - k
{
    broadcast use sdepth_sub;
    if k < x@.len() {
        o_from_step(z, x, k, t, i, cur);
        q_nat(z, x, k + 1, t, i, cur);
        match x@[k].r() {
            SelectionReference::Field(f) => {
                if let Some(l) = t.o_fields_definition() { if let Some(d) = first(l@, f.s_name()) {
                    let j = i && incl(*z.op, *z.vv, f.o_directives());
                    from_quiet(s, *z.s, f.o_directives());
                    let s1 = if j { (s.0 + 1, mx(s.1, s.0 + 1)) } else { s };
                    fargs_quiet(s1, *f, d);
                    let mut s2 = s1;
                    if let Some(y) = f.o_selection_set() { if let Some(t2) = first(z.s.s_type_definitions(), ty_base(d.s_type_().v())) {
                        q_nat(z, y, 0, t2, j, cur);
                        depth_of(z, y, 0, t2, j, cur, s1);
                    } }
                    let s3 = run::<QueryDepth>(s1, o_sub(z, *f, d, j, cur));
                    let s4 = if j { (s3.0 - 1, s3.1) } else { s3 };
                    depth_of(z, x, k + 1, t, i, cur, s4);
                } else { depth_of(z, x, k + 1, t, i, cur, s); } } else { depth_of(z, x, k + 1, t, i, cur, s); }
            }
            SelectionReference::InlineFragment(f) => {
                let j = i && incl(*z.op, *z.vv, f.o_directives());
                from_quiet(s, *z.s, f.o_directives());
                if let Some(t2) = cond_type(z.s, f.s_type_condition(), t) { q_nat(z, f.s_selection_set(), 0, t2, j, cur); depth_of(z, f.s_selection_set(), 0, t2, j, cur, s); depth_of(z, x, k + 1, t, i, cur, run::<QueryDepth>(s, o_set(z, f.s_selection_set(), t2, j, cur))); } else { depth_of(z, x, k + 1, t, i, cur, s); }
            }
            SelectionReference::FragmentSpread(f) => {
                let j = i && incl(*z.op, *z.vv, f.o_directives());
                from_quiet(s, *z.s, f.o_directives());
                if let Some(g) = frag_of(z.c, f.s_name(), cur) { fuel_less(z.c, f.s_name(), cur); if let Some(t2) = first(z.s.s_type_definitions(), g.s_type_condition()) { let c2 = cur.insert(f.s_name()); q_nat(z, g.s_selection_set(), 0, t2, j, c2); depth_of(z, g.s_selection_set(), 0, t2, j, c2, s); depth_of(z, x, k + 1, t, i, cur, run::<QueryDepth>(s, o_set(z, g.s_selection_set(), t2, j, c2))); } else { depth_of(z, x, k + 1, t, i, cur, s); } } else { depth_of(z, x, k + 1, t, i, cur, s); }
            }
        }
    } else { o_from_end(z, x, t, i, cur); }
}
// P16: what Orchestrator::analyze::<QueryDepth> returns (see its contract), for every operation whose depth fits the counter
pub proof fn analyzed<'a>(z: Env<'a>, r: usize)
    requires q_op(z) <= usize::MAX, QueryDepth::out(run::<QueryDepth>(QueryDepth::s0(z, ()), o_op(z)), r)
    ensures okay::<QueryDepth>(QueryDepth::s0(z, ()), o_op(z)), r == q_op(z)
{
    from_quiet((0, 0), *z.s, z.op.o_directives());
    if let Some(t) = root_of(*z.s, z.op.s_operation_type()) { depth_of(z, z.op.s_selection_set(), 0, first(z.s.s_type_definitions(), t.s_name())->0, true, Set::empty(), (0, 0)); q_nat(z, z.op.s_selection_set(), 0, first(z.s.s_type_definitions(), t.s_name())->0, true, Set::empty()); }
    let s = run::<QueryDepth>((0, 0), o_sels(z));
    match z.op.o_variable_definitions() { Some(v) => vars_quiet(s, v@), None => {} }
}
}
} // verus!
fn main() {}
