// Which kinds of events the parts of an operation send.
pub mod opfacts { use super::*;
pub open spec fn novar<'a>(e: OEvs<'a>) -> bool { forall|i: int| 0 <= i < e.len() ==> !((#[trigger] e[i]) is Var) }
pub broadcast proof fn novar_add<'a>(a: OEvs<'a>, b: OEvs<'a>) ensures #[trigger] novar(a + b) <==> novar(a) && novar(b) {
    if novar(a + b) { assert forall|i: int| 0 <= i < a.len() implies !((#[trigger] a[i]) is Var) by { assert((a + b)[i] == a[i]); } assert forall|i: int| 0 <= i < b.len() implies !((#[trigger] b[i]) is Var) by { assert((a + b)[a.len() + i] == b[i]); } }
}
pub proof fn novar_args<'a>(d: Seq<InputValueDefinition>, a: Seq<Argument<false>>) ensures novar(o_args::<'a>(d, a)) decreases a.len() { broadcast use novar_add; if a.len() > 0 { let f = |a: Argument<false>| o_arg::<'a>(d, a); assert(o_args::<'a>(d, a) == o_arg::<'a>(d, a[0]) + sum(a.skip(1), f)); novar_args(d, a.skip(1)); assert(sum(a.skip(1), f) == o_args::<'a>(d, a.skip(1))); } }
pub proof fn novar_dirs<'a>(c: SchemaDefinition, a: Seq<Directive<false>>) ensures novar(o_dirs::<'a>(c, a)) decreases a.len() { broadcast use novar_add;
    if a.len() > 0 { let f = |d: Directive<false>| o_dir::<'a>(c, d); assert(o_dirs::<'a>(c, a) == o_dir::<'a>(c, a[0]) + sum(a.skip(1), f)); novar_dirs(c, a.skip(1)); assert(sum(a.skip(1), f) == o_dirs::<'a>(c, a.skip(1)));
        match (a[0].o_arguments(), odefs(c, a[0].s_name())) { (Some(x), Some(y)) => { novar_args(y, x@); } _ => {} } } }
pub proof fn novar_odirs<'a>(c: SchemaDefinition, f: Option<List<Directive<false>>>) ensures novar(oo_dirs::<'a>(c, f)) { match f { Some(l) => novar_dirs(c, l@), None => {} } }
pub proof fn novar_fargs<'a>(f: Field, d: FieldDefinition) ensures novar(o_fargs::<'a>(f, d)) { match (f.o_arguments(), d.o_arguments_definition()) { (Some(a), Some(l)) => novar_args(l@, a@), _ => {} } }
pub proof fn novar_from<'a>(z: Env<'a>, x: List<Selection>, k: int, t: TypeDefinitionReference<'a>, i: bool, cur: Set<Seq<char>>)
    requires 0 <= k <= x@.len() ensures novar(o_from(z, x, k, t, i, cur)) decreases fuel(z.c, cur), sdepth(x), x@.len() - k
{
    broadcast use {sdepth_sub, novar_add};
    if k < x@.len() {
        o_from_step(z, x, k, t, i, cur); novar_from(z, x, k + 1, t, i, cur);
        match x@[k].r() {
            SelectionReference::Field(f) => { if let Some(l) = t.o_fields_definition() { if let Some(d) = first(l@, f.s_name()) { let j = i && incl(*z.op, *z.vv, f.o_directives()); novar_odirs(*z.s, f.o_directives()); novar_fargs(*f, d);
                if let Some(y) = f.o_selection_set() { if let Some(t2) = first(z.s.s_type_definitions(), ty_base(d.s_type_().v())) { novar_from(z, y, 0, t2, j, cur); } } } } }
            SelectionReference::InlineFragment(f) => { let j = i && incl(*z.op, *z.vv, f.o_directives()); novar_odirs(*z.s, f.o_directives()); if let Some(t2) = cond_type(z.s, f.s_type_condition(), t) { novar_from(z, f.s_selection_set(), 0, t2, j, cur); } }
            SelectionReference::FragmentSpread(f) => { let j = i && incl(*z.op, *z.vv, f.o_directives()); novar_odirs(*z.s, f.o_directives()); if let Some(g) = frag_of(z.c, f.s_name(), cur) { fuel_less(z.c, f.s_name(), cur); if let Some(t2) = first(z.s.s_type_definitions(), g.s_type_condition()) { novar_from(z, g.s_selection_set(), 0, t2, j, cur.insert(f.s_name())); } } }
        }
    } else { o_from_end(z, x, t, i, cur); }
}
pub proof fn novar_sels<'a>(z: Env<'a>) ensures novar(o_sels(z)) { match root_of(*z.s, z.op.s_operation_type()) { Some(t) => novar_from(z, z.op.s_selection_set(), 0, first(z.s.s_type_definitions(), t.s_name())->0, true, Set::empty()), None => {} } }
}
pub use opfacts::*;
