#!/usr/bin/env python3
"""Writes units/cmp_diff.inc: contracts of bluejay-schema-comparator/src/diff/*.rs (property P22)."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'bluejay-schema-comparator/src/diff/'
o = []
w = o.append
# --- the view of a change: context by name, the elements themselves by value -------------------------------------
VARS = '''TypeRemoved: t removed_type_definition *TypeDefinitionReference<'a>
TypeAdded: t added_type_definition *TypeDefinitionReference<'a>
TypeKindChanged: t old_type_definition *TypeDefinitionReference<'a>; u new_type_definition *TypeDefinitionReference<'a>
TypeDescriptionChanged: t old_type_definition *TypeDefinitionReference<'a>; u new_type_definition *TypeDefinitionReference<'a>
FieldAdded: ctx type_name @; f added_field_definition FieldDefinition
FieldRemoved: ctx type_name @; f removed_field_definition FieldDefinition
FieldDescriptionChanged: ctx type_name @; f old_field_definition FieldDefinition; g new_field_definition FieldDefinition
FieldTypeChanged: ctx type_name @; f old_field_definition FieldDefinition; g new_field_definition FieldDefinition
FieldArgumentAdded: ctx type_name @; fd field_definition #; a argument_definition InputValueDefinition
FieldArgumentRemoved: ctx type_name @; fd field_definition #; a argument_definition InputValueDefinition
FieldArgumentDescriptionChanged: ctx type_name @; fd field_definition #; a old_argument_definition InputValueDefinition; b new_argument_definition InputValueDefinition
FieldArgumentDefaultValueChanged: ctx type_name @; fd field_definition #; a old_argument_definition InputValueDefinition; b new_argument_definition InputValueDefinition
FieldArgumentTypeChanged: ctx type_name @; fd field_definition #; a old_argument_definition InputValueDefinition; b new_argument_definition InputValueDefinition
ObjectInterfaceAddition: ctx object_type_definition #; i interface_implementation InterfaceImplementation
ObjectInterfaceRemoval: ctx object_type_definition #; i interface_implementation InterfaceImplementation
EnumValueAdded: ctx enum_type_definition #; e enum_value_definition EnumValueDefinition
EnumValueRemoved: ctx enum_type_definition #; e enum_value_definition EnumValueDefinition
EnumValueDescriptionChanged: ctx enum_type_definition #; e old_enum_value_definition EnumValueDefinition; g new_enum_value_definition EnumValueDefinition
UnionMemberAdded: ctx union_type_definition #; m union_member_type UnionMemberType
UnionMemberRemoved: ctx union_type_definition #; m union_member_type UnionMemberType
InputFieldAdded: ctx input_object_type_definition #; a added_field_definition InputValueDefinition
InputFieldRemoved: ctx input_object_type_definition #; a removed_field_definition InputValueDefinition
InputFieldDescriptionChanged: ctx input_object_type_definition #; a old_field_definition InputValueDefinition; b new_field_definition InputValueDefinition
InputFieldTypeChanged: ctx input_object_type_definition #; a old_field_definition InputValueDefinition; b new_field_definition InputValueDefinition
InputFieldDefaultValueChanged: ctx input_object_type_definition #; a old_field_definition InputValueDefinition; b new_field_definition InputValueDefinition
DirectiveDefinitionAdded: d directive_definition DirectiveDefinition
DirectiveDefinitionRemoved: d directive_definition DirectiveDefinition
DirectiveDefinitionLocationAdded: ctx directive_definition #; l location DirectiveLocation
DirectiveDefinitionLocationRemoved: ctx directive_definition #; l location DirectiveLocation
DirectiveDefinitionDescriptionChanged: d old_directive_definition DirectiveDefinition; e new_directive_definition DirectiveDefinition
DirectiveDefinitionArgumentAdded: ctx directive_definition #; a argument_definition InputValueDefinition
DirectiveDefinitionArgumentRemoved: ctx directive_definition #; a argument_definition InputValueDefinition
DirectiveDefinitionArgumentDescriptionChanged: ctx directive_definition #; a old_argument_definition InputValueDefinition; b new_argument_definition InputValueDefinition
DirectiveDefinitionArgumentDefaultValueChanged: ctx directive_definition #; a old_argument_definition InputValueDefinition; b new_argument_definition InputValueDefinition
DirectiveDefinitionArgumentTypeChanged: ctx directive_definition #; a old_argument_definition InputValueDefinition; b new_argument_definition InputValueDefinition
DirectiveAdded: loc location =DirectiveLocation; ctx member_name @; d directive Directive<true>
DirectiveRemoved: loc location =DirectiveLocation; ctx member_name @; d directive Directive<true>
DirectiveArgumentAdded: ctx directive #; x argument Argument<true>
DirectiveArgumentRemoved: ctx directive #; x argument Argument<true>
DirectiveArgumentValueChanged: ctx directive #; x old_argument Argument<true>; y new_argument Argument<true>'''
ev, vw = [], []
for l in VARS.split('\n'):
    n, fs = l.split(': ')
    fs = [f.split(' ') for f in fs.split('; ')]
    def gty(t): return 'Seq<char>' if t in '@#' else t.lstrip('*=') if t[0] in '*=' else t
    def val(f, t): return f + '@' if t == '@' else f + '.s_name()' if t == '#' else '*' + f if t[0] in '*' or t[0] == '=' else '*' + '*' + f
    ev.append(f"    {n} {{ {', '.join(f'{g}: {gty(t)}' for g, f, t in fs)} }},")
    def val2(f, t):
        if t == '@': return f'{f}@'
        if t == '#': return f'{f}.s_name()'
        if t[0] in '*=': return f'*{f}'
        return f'**{f}'
    vw.append(f"        Change::{n} {{ {', '.join(f for g, f, t in fs)} }} => ChangeV::{n} {{ {', '.join(f'{g}: {val2(f, t)}' for g, f, t in fs)} }},")
w('#[allow(inconsistent_fields)]\n#[verifier::ext_equal]\npub enum ChangeV<\'a> {\n' + '\n'.join(ev) + '\n}')
w("impl<'a> Change<'a> { pub open spec fn v(&self) -> ChangeV<'a> { match self {\n" + '\n'.join(vw) + '\n    } } }')
w('''pub open spec fn hasc<'a>(s: Seq<Change<'a>>, c: ChangeV<'a>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).v() == c }
pub broadcast proof fn hasc_push<'a>(s: Seq<Change<'a>>, x: Change<'a>, c: ChangeV<'a>) ensures #[trigger] hasc(s.push(x), c) <==> hasc(s, c) || c == x.v() {
    if hasc(s, c) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).v() == c; assert(s.push(x)[i].v() == c); }
    if c == x.v() { assert(s.push(x)[s.len() as int].v() == c); }
}
pub broadcast proof fn hasc_add<'a>(a: Seq<Change<'a>>, b: Seq<Change<'a>>, c: ChangeV<'a>) ensures #[trigger] hasc(a + b, c) <==> hasc(a, c) || hasc(b, c) {
    if hasc(a, c) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).v() == c; assert((a + b)[i].v() == c); }
    if hasc(b, c) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).v() == c; assert((a + b)[a.len() + i].v() == c); }
    if hasc(a + b, c) { let i = choose|i: int| 0 <= i < (a + b).len() && (#[trigger] (a + b)[i]).v() == c; if i < a.len() { assert(a[i].v() == c); } else { assert(b[i - a.len()].v() == c); } }
}
pub broadcast proof fn hasc_empty<'a>(c: ChangeV<'a>) ensures !(#[trigger] hasc(Seq::<Change<'a>>::empty(), c)) { }
pub broadcast group hasc_lemmas { hasc_push, hasc_add, hasc_empty }
pub mod cmp { use super::*;
broadcast use {base_lemmas, hasc_lemmas};
//@subst directive_additions :: < S , _ > ==> directive_additions
//@subst directive_removals :: < S , _ > ==> directive_removals
//@subst directive_additions :: < 'a , S , _ > ==> directive_additions
//@subst directive_removals :: < 'a , S , _ > ==> directive_removals
//@subst < S as SchemaDefinition > :: Directive ==> Directive < true >
//@subst < S as SchemaDefinition > :: $x ==> $x
//@subst ArgumentForDirective < S > ==> Argument < true >
//@subst Change < 'a , S > ==> Change < 'a >
//@method not/0 ==> !($self)
//@method into_iter/0 ==> into_it($self)
//@rtype arguments=opt arguments_definition=opt directives=opt interface_implementations=opt get=opt get_type_definition=opt get_directive_definition=opt
//@rtype directive_additions=iter directive_removals=iter common_directive_changes=iter argument_additions=iter argument_removals=iter location_additions=iter location_removals=iter field_additions=iter field_removals=iter interface_additions=iter interface_removals=iter value_additions=iter value_removals=iter member_additions=iter member_removals=iter input_field_additions=iter input_field_removals=iter removed_types=iter added_types=iter removed_directive_definitions=iter added_directive_definitions=iter type_definitions=iter directive_definitions=iter
//@known new diff''')
def struct(file, name):
    w(f'//@item src={D}{file} name={name} subst="< \'a , S : SchemaDefinition > ==> < \'a >"')
def new(file, name, fields):
    w(f"//@fn src={D}{file} impl={name} fn=new header=\"impl<'a> {name}<'a>\"\n    ensures " + ', '.join(f'r.{f} == ${i}' for i, f in enumerate(fields)) + '\n//@end')
def fn(file, impl, name, spec, loops=(), sig=None, extra=''):
    h = f' impl={impl} header="impl<\'a> {impl}<\'a>"' if impl else ' header=""'
    s = f'//@fn src={D}{file}{h} fn={name}\n    {spec}\n'
    if sig: s += f'//@ sig {sig}\n'
    for k, a in loops: s += f'//@ loop {k}\n{a}\n'
    w(s + extra + '//@end')
ADD = ' #[trigger] '
def sub(file, impl, name, T, src, other, lt=True):
    """additions/removals: the elements of `src` whose name does not occur in `other`"""
    fn(file, impl, name, f'ensures forall|x: &{T}| #![trigger r@.contains(x)] #![trigger {src}.contains(*x)] r@.contains(x) <==> {src}.contains(*x) && !named_in({other}, x.s_name())',
       [('~push', f'@push acc z: !named_in({other}, z.s_name()) =>> &z'), ('*~!push', f'@any y: y.s_name() == $up.s_name()')],
       sig=f"fn {name}(&self) -> (r: ItV<&'a {T}>)", extra='//@ anyargs\n' if False else '')
# --- applied directives ------------------------------------------------------------------------------------------
w('''#[verifier::inline]
pub open spec fn dv(a: Value<true>, b: Value<true>) -> bool { veq(a, b) }
#[verifier::opaque]
pub open spec fn dir_has<'a>(o: Directive<true>, n: Directive<true>, c: ChangeV<'a>) -> bool { match c {
    ChangeV::DirectiveArgumentAdded { ctx, x } => ctx == n.s_name() && n.s_arguments().contains(x) && !named_in(o.s_arguments(), x.s_name()),
    ChangeV::DirectiveArgumentRemoved { ctx, x } => ctx == o.s_name() && o.s_arguments().contains(x) && !named_in(n.s_arguments(), x.s_name()),
    ChangeV::DirectiveArgumentValueChanged { ctx, x, y } => ctx == o.s_name() && o.s_arguments().contains(x) && first(n.s_arguments(), x.s_name()) == Some(y) && !veq(x.s_value(), y.s_value()),
    _ => false } }
// changes of the directives applied to an element called `m` at a `loc` location
pub open spec fn dirs_has<'a>(o: Seq<Directive<true>>, n: Seq<Directive<true>>, loc: DirectiveLocation, m: Seq<char>, c: ChangeV<'a>) -> bool {
    (c is DirectiveAdded && c->DirectiveAdded_loc == loc && c->DirectiveAdded_ctx == m && n.contains(c->DirectiveAdded_d) && !named_in(o, c->DirectiveAdded_d.s_name()))
    || (c is DirectiveRemoved && c->DirectiveRemoved_loc == loc && c->DirectiveRemoved_ctx == m && o.contains(c->DirectiveRemoved_d) && !named_in(n, c->DirectiveRemoved_d.s_name()))
    || common_dirs_has(o, n, c) }
pub open spec fn common_dirs_has<'a>(o: Seq<Directive<true>>, n: Seq<Directive<true>>, c: ChangeV<'a>) -> bool {
    exists|i: int| 0 <= i < o.len() && first(n, (#[trigger] o[i]).s_name()) is Some && dir_has(o[i], first(n, o[i].s_name())->0, c) }''')
o_, n_ = 'self.old_directive', 'self.new_directive'
struct('directive.rs', 'DirectiveDiff')
new('directive.rs', 'DirectiveDiff', ['old_directive', 'new_directive'])
IVD, FD, DIR, ARG = 'InputValueDefinition', 'FieldDefinition', 'Directive<true>', 'Argument<true>'
sub('directive.rs', 'DirectiveDiff', 'argument_additions', ARG, n_ + '.s_arguments()', o_ + '.s_arguments()')
sub('directive.rs', 'DirectiveDiff', 'argument_removals', ARG, o_ + '.s_arguments()', n_ + '.s_arguments()')
def q(v): return '__c == ChangeV::' + v
def dirloops(loc, o, n):
    """the three calls every diff makes for applied directives"""
    return [('~DirectiveAdded', f'@pushc $mut0 z: true =>> ChangeV::DirectiveAdded {{ loc: DirectiveLocation::{loc}, ctx: {o}.s_name(), d: *z }}'),
            ('~DirectiveRemoved', f'@pushc $mut0 z: true =>> ChangeV::DirectiveRemoved {{ loc: DirectiveLocation::{loc}, ctx: {o}.s_name(), d: *z }}'),
            ('~push !Change', '@append $mut0')]
def diff(file, impl, pred, args, loops, req=''):
    fn(file, impl, 'diff', (f'requires {req}\n    ' if req else '') + f"ensures forall|c: ChangeV<'a>| #![trigger hasc(r@, c)] #![trigger {pred}({', '.join(args)}, c)] hasc(r@, c) <==> {pred}({', '.join(args)}, c)", loops, extra=f'//@ attrs #[verifier::spinoff_prover]\n//@ at start\nproof {{ reveal({pred}); }}\n')
diff('directive.rs', 'DirectiveDiff', 'dir_has', ['*' + o_, '*' + n_], [
    ('~DirectiveArgumentAdded', f'@pushc $mut0 z: true =>> ChangeV::DirectiveArgumentAdded {{ ctx: {n_}.s_name(), x: *z }}'),
    ('~DirectiveArgumentRemoved', f'@pushc $mut0 z: true =>> ChangeV::DirectiveArgumentRemoved {{ ctx: {o_}.s_name(), x: *z }}'),
    ('~DirectiveArgumentValueChanged', f'@extc $mut0 z: first({n_}.s_arguments(), z.s_name()) is Some && !veq(z.s_value(), first({n_}.s_arguments(), z.s_name())->0.s_value()) && __c == (ChangeV::DirectiveArgumentValueChanged {{ ctx: {o_}.s_name(), x: z, y: first({n_}.s_arguments(), z.s_name())->0 }})'),
    ('~!push', '@first $up.s_name()')])
for nm, a, b in (('directive_additions', '$1', '$0'), ('directive_removals', '$0', '$1')):
    fn('directive.rs', None, nm, f'ensures forall|x: &Directive<true>| #![trigger r@.contains(x)] #![trigger dirs(*{a}).contains(*x)] r@.contains(x) <==> dirs(*{a}).contains(*x) && !named_in(dirs(*{b}), x.s_name())',
       [('~push', f'@push acc z: !named_in(dirs(*{b}), z.s_name()) =>> &z'), ('*~!push', '@any y: y.s_name() == $up.s_name()')],
       sig=f"fn {nm}<'a, T: HasDirectives>($0: &'a T, $1: &'a T) -> (r: ItV<&'a Directive<true>>)")
fn('directive.rs', None, 'common_directive_changes', "ensures forall|c: ChangeV<'a>| #![trigger hasc(r@, c)] #![trigger common_dirs_has(dirs(*$0), dirs(*$1), c)] hasc(r@, c) <==> common_dirs_has(dirs(*$0), dirs(*$1), c)",
   [('~diff', '@extc acc z: first(dirs(*$1), z.s_name()) is Some && dir_has(z, first(dirs(*$1), z.s_name())->0, __c)'),
    ('~push !diff', '@append acc'),
    ('*~', '@first $up.s_name()')],
   sig="fn common_directive_changes<'a, T: HasDirectives>($0: &'a T, $1: &'a T) -> (r: ItV<Change<'a>>)")
# --- the diffs of members ------------------------------------------------------------------------------------------
w("""pub open spec fn desc_differs(a: Option<Seq<char>>, b: Option<Seq<char>>) -> bool { a != b }
pub open spec fn default_differs(a: Option<Value<true>>, b: Option<Value<true>>) -> bool { match (a, b) { (Some(x), Some(y)) => !veq(x, y), (None, None) => false, _ => true } }
""")
def pred(name, params, body):
    own, loc = body.split(DIRS)
    w(f"#[verifier::opaque]\npub open spec fn {name}<'a>({params}, c: ChangeV<'a>) -> bool {{ (match c {{\n{own}    _ => false }}) || dirs_has(o.s_directives(), n.s_directives(), DirectiveLocation::{loc}, o.s_name(), c) }}")
DIRS = '@@'
_unused = '    ChangeV::DirectiveAdded { .. } | ChangeV::DirectiveRemoved { .. } | ChangeV::DirectiveArgumentAdded { .. } | ChangeV::DirectiveArgumentRemoved { .. } | ChangeV::DirectiveArgumentValueChanged { .. } => dirs_has(o.s_directives(), n.s_directives(), DirectiveLocation::%s, o.s_name(), c),\n    _ => false,'
def changed(prefix, ctx, cvars):
    a, b = cvars
    c = ', '.join(x for x, _ in ctx)
    cond = ' && '.join(f'{x} == {y}' for x, y in ctx)
    ctxs = c + ', ' if c else ''
    conds = cond + ' && ' if cond else ''
    return f"""    ChangeV::{prefix}DescriptionChanged {{ {ctxs}{a}, {b} }} => {conds}{a} == o && {b} == n && desc_differs(o.s_description(), n.s_description()),
"""
def typed(prefix, ctx, cvars):
    a, b = cvars
    ctxs = ''.join(x + ', ' for x, _ in ctx)
    conds = ''.join(f'{x} == {y} && ' for x, y in ctx)
    return f"""    ChangeV::{prefix}TypeChanged {{ {ctxs}{a}, {b} }} => {conds}{a} == o && {b} == n && o.s_type_().v() != n.s_type_().v(),
"""
def dflt(prefix, ctx, cvars):
    a, b = cvars
    ctxs = ''.join(x + ', ' for x, _ in ctx)
    conds = ''.join(f'{x} == {y} && ' for x, y in ctx)
    return f"""    ChangeV::{prefix}DefaultValueChanged {{ {ctxs}{a}, {b} }} => {conds}{a} == o && {b} == n && default_differs(o.s_default_value(), n.s_default_value()),
"""
# arguments of fields
C = [('ctx', 'tn'), ('fd', 'fname')]
pred('arg_has', f'tn: Seq<char>, fname: Seq<char>, o: {IVD}, n: {IVD}', changed('FieldArgument', C, 'ab') + typed('FieldArgument', C, 'ab') + dflt('FieldArgument', C, 'ab') + DIRS + 'ArgumentDefinition')
struct('argument.rs', 'ArgumentDiff')
new('argument.rs', 'ArgumentDiff', ['type_name', 'field_definition', 'old_argument_definition', 'new_argument_definition'])
diff('argument.rs', 'ArgumentDiff', 'arg_has', ['self.type_name@', 'self.field_definition.s_name()', '*self.old_argument_definition', '*self.new_argument_definition'],
     dirloops('ArgumentDefinition', 'self.old_argument_definition', ''))
# input fields
C = [('ctx', 'tn')]
pred('input_field_has', f'tn: Seq<char>, o: {IVD}, n: {IVD}', changed('InputField', C, 'ab') + typed('InputField', C, 'ab') + dflt('InputField', C, 'ab') + DIRS + 'InputFieldDefinition')
struct('input_field.rs', 'InputFieldDiff')
new('input_field.rs', 'InputFieldDiff', ['old_type_definition', 'old_field_definition', 'new_field_definition'])
diff('input_field.rs', 'InputFieldDiff', 'input_field_has', ['self.old_type_definition.s_name()', '*self.old_field_definition', '*self.new_field_definition'],
     dirloops('InputFieldDefinition', 'self.old_field_definition', ''))
# arguments of directive definitions
pred('dda_has', f'dn: Seq<char>, o: {IVD}, n: {IVD}', changed('DirectiveDefinitionArgument', [('ctx', 'dn')], 'ab') + typed('DirectiveDefinitionArgument', [('ctx', 'dn')], 'ab') + dflt('DirectiveDefinitionArgument', [('ctx', 'dn')], 'ab') + DIRS + 'ArgumentDefinition')
struct('directive_definition_argument.rs', 'DirectiveDefinitionArgumentDiff')
new('directive_definition_argument.rs', 'DirectiveDefinitionArgumentDiff', ['directive_definition', 'old_argument_definition', 'new_argument_definition'])
diff('directive_definition_argument.rs', 'DirectiveDefinitionArgumentDiff', 'dda_has', ['self.directive_definition.s_name()', '*self.old_argument_definition', '*self.new_argument_definition'],
     dirloops('ArgumentDefinition', 'self.old_argument_definition', ''))
# enum values
pred('enum_value_has', 'en: Seq<char>, o: EnumValueDefinition, n: EnumValueDefinition', changed('EnumValue', [('ctx', 'en')], 'eg') + DIRS + 'EnumValue')
struct('enum_value.rs', 'EnumValueDiff')
new('enum_value.rs', 'EnumValueDiff', ['enum_type_definition', 'old_value_definition', 'new_value_definition'])
diff('enum_value.rs', 'EnumValueDiff', 'enum_value_has', ['self.enum_type_definition.s_name()', '*self.old_value_definition', '*self.new_value_definition'],
     dirloops('EnumValue', 'self.old_value_definition', ''))
# --- diffs with members --------------------------------------------------------------------------------------------
def common(p, old, new):
    return f'exists|i: int| 0 <= i < {old}.len() && first({new}, (#[trigger] {old}[i]).s_name()) is Some && {p}({old}[i], first({new}, {old}[i].s_name())->0, c)'
# fields
w(f"pub open spec fn common_args_has<'a>(tn: Seq<char>, fname: Seq<char>, o: Seq<{IVD}>, n: Seq<{IVD}>, c: ChangeV<'a>) -> bool {{ exists|i: int| 0 <= i < o.len() && first(n, (#[trigger] o[i]).s_name()) is Some && arg_has(tn, fname, o[i], first(n, o[i].s_name())->0, c) }}")
w(f"""#[verifier::opaque]
pub open spec fn field_has<'a>(tn: Seq<char>, o: {FD}, n: {FD}, c: ChangeV<'a>) -> bool {{ (match c {{
    ChangeV::FieldDescriptionChanged {{ ctx, f, g }} => ctx == tn && f == o && g == n && desc_differs(o.s_description(), n.s_description()),
    ChangeV::FieldTypeChanged {{ ctx, f, g }} => ctx == tn && f == o && g == n && o.s_type_().v() != n.s_type_().v(),
    ChangeV::FieldArgumentAdded {{ ctx, fd, a }} => ctx == tn && fd == o.s_name() && n.s_arguments_definition().contains(a) && !named_in(o.s_arguments_definition(), a.s_name()),
    ChangeV::FieldArgumentRemoved {{ ctx, fd, a }} => ctx == tn && fd == o.s_name() && o.s_arguments_definition().contains(a) && !named_in(n.s_arguments_definition(), a.s_name()),
    _ => false }}) || dirs_has(o.s_directives(), n.s_directives(), DirectiveLocation::FieldDefinition, o.s_name(), c) || common_args_has(tn, o.s_name(), o.s_arguments_definition(), n.s_arguments_definition(), c) }}""")
F = 'field.rs', 'FieldDiff'
struct(*F)
new(*F, ['type_name', 'old_field_definition', 'new_field_definition'])
o_, n_ = 'self.old_field_definition', 'self.new_field_definition'
sub(*F, 'argument_additions', IVD, n_ + '.s_arguments_definition()', o_ + '.s_arguments_definition()')
sub(*F, 'argument_removals', IVD, o_ + '.s_arguments_definition()', n_ + '.s_arguments_definition()')
def findloop(call, seqn): return [(f'~diff', f'@extc $mut0 z: first({seqn}, z.s_name()) is Some && {call}'), ('*~', '@first $up.s_name()')]
na = n_ + '.s_arguments_definition()'
diff(*F, 'field_has', ['self.type_name@', '*' + o_, '*' + n_], [
    ('~FieldArgumentAdded', f'@pushc $mut0 z: true =>> ChangeV::FieldArgumentAdded {{ ctx: self.type_name@, fd: {o_}.s_name(), a: *z }}'),
    ('~FieldArgumentRemoved', f'@pushc $mut0 z: true =>> ChangeV::FieldArgumentRemoved {{ ctx: self.type_name@, fd: {o_}.s_name(), a: *z }}')]
    + dirloops('FieldDefinition', o_, '') + findloop(f'arg_has(self.type_name@, {o_}.s_name(), z, first({na}, z.s_name())->0, __c)', na), req=f'{o_}.s_name() == {n_}.s_name()')

def hasdirs(loc, o, n, m): return f"dirs_has({o}.s_directives(), {n}.s_directives(), DirectiveLocation::{loc}, {m}, c)"
def commonpred(name, T, p, params, args):
    w(f"pub open spec fn {name}<'a>({params}o: Seq<{T}>, n: Seq<{T}>, c: ChangeV<'a>) -> bool {{ exists|i: int| 0 <= i < o.len() && first(n, (#[trigger] o[i]).s_name()) is Some && {p}({args}o[i], first(n, o[i].s_name())->0, c) }}")
def typediff(file, impl, T, pred, loc, seq, MT, prefix, var, add, rem, common=None, commonargs='', flds=('old_type_definition', 'new_type_definition'), diffcall=None, extra=None, ctxfld=None, iface=False):
    a, b = flds
    o_, n_ = 'self.' + a, 'self.' + b
    cv = {'f': ('FieldAdded', 'FieldRemoved'), 'e': ('EnumValueAdded', 'EnumValueRemoved'), 'm': ('UnionMemberAdded', 'UnionMemberRemoved'), 'a': ('InputFieldAdded', 'InputFieldRemoved')}[var]
    own = f"    ChangeV::{cv[0]} {{ ctx, {var} }} => ctx == o.s_name() && n.{seq}.contains({var}) && !named_in(o.{seq}, {var}.s_name()),\n"
    own += f"    ChangeV::{cv[1]} {{ ctx, {var} }} => ctx == o.s_name() && o.{seq}.contains({var}) && !named_in(n.{seq}, {var}.s_name()),\n"
    if iface:
        own += "    ChangeV::ObjectInterfaceAddition { ctx, i } => ctx == o.s_name() && n.s_interface_implementations().contains(i) && !named_in(o.s_interface_implementations(), i.s_name()),\n"
        own += "    ChangeV::ObjectInterfaceRemoval { ctx, i } => ctx == o.s_name() && o.s_interface_implementations().contains(i) && !named_in(n.s_interface_implementations(), i.s_name()),\n"
    tail = f" || {common}({commonargs}o.{seq}, n.{seq}, c)" if common else ''
    w(f"#[verifier::opaque]\npub open spec fn {pred}<'a>(o: {T}, n: {T}, c: ChangeV<'a>) -> bool {{ (match c {{\n{own}    _ => false }}) || {hasdirs(loc, 'o', 'n', 'o.s_name()')}{tail} }}")
    struct(file, impl)
    new(file, impl, [a, b])
    sub(file, impl, add, MT, f'{n_}.{seq}', f'{o_}.{seq}')
    sub(file, impl, rem, MT, f'{o_}.{seq}', f'{n_}.{seq}')
    if iface:
        sub(file, impl, 'interface_additions', 'InterfaceImplementation', f'{n_}.s_interface_implementations()', f'{o_}.s_interface_implementations()')
        sub(file, impl, 'interface_removals', 'InterfaceImplementation', f'{o_}.s_interface_implementations()', f'{n_}.s_interface_implementations()')
    loops = [(f'~{cv[0]}', f'@pushc $mut0 z: true =>> ChangeV::{cv[0]} {{ ctx: {o_}.s_name(), {var}: *z }}'),
             (f'~{cv[1]}', f'@pushc $mut0 z: true =>> ChangeV::{cv[1]} {{ ctx: {o_}.s_name(), {var}: *z }}')]
    if iface:
        loops += [('~ObjectInterfaceAddition', f'@pushc $mut0 z: true =>> ChangeV::ObjectInterfaceAddition {{ ctx: {o_}.s_name(), i: *z }}'),
                  ('~ObjectInterfaceRemoval', f'@pushc $mut0 z: true =>> ChangeV::ObjectInterfaceRemoval {{ ctx: {o_}.s_name(), i: *z }}')]
    ns = f'{n_}.{seq}'
    if common: loops += [(f'~diff', f'@extc $mut0 z: first({ns}, z.s_name()) is Some && {diffcall}(' + commonargs.replace('o.s_name()', o_ + '.s_name()') + f'z, first({ns}, z.s_name())->0, __c)')]
    loops += dirloops(loc, o_, '') + [('*~', '@first $up.s_name()')]
    diff(file, impl, pred, ['*' + o_, '*' + n_], loops, req=f'{o_}.s_name() == {n_}.s_name()')
commonpred('common_fields_has', FD, 'field_has', 'tn: Seq<char>, ', 'tn, ')
commonpred('common_input_fields_has', IVD, 'input_field_has', 'tn: Seq<char>, ', 'tn, ')
commonpred('common_enum_values_has', 'EnumValueDefinition', 'enum_value_has', 'tn: Seq<char>, ', 'tn, ')
commonpred('common_dda_has', IVD, 'dda_has', 'tn: Seq<char>, ', 'tn, ')
typediff('enum_type.rs', 'EnumTypeDiff', 'EnumTypeDefinition', 'enum_has', 'Enum', 's_enum_value_definitions()@', 'EnumValueDefinition', 'EnumValue', 'e', 'value_additions', 'value_removals', 'common_enum_values_has', 'o.s_name(), ', diffcall='enum_value_has')
typediff('union_type.rs', 'UnionTypeDiff', 'UnionTypeDefinition', 'union_has', 'Union', 's_union_member_types()@', 'UnionMemberType', 'UnionMember', 'm', 'member_additions', 'member_removals', flds=('old_type', 'new_type'))
typediff('input_object_type.rs', 'InputObjectTypeDiff', 'InputObjectTypeDefinition', 'input_object_has', 'InputObject', 's_input_field_definitions()@', IVD, 'InputField', 'a', 'input_field_additions', 'input_field_removals', 'common_input_fields_has', 'o.s_name(), ', diffcall='input_field_has')
typediff('interface_type.rs', 'InterfaceTypeDiff', 'InterfaceTypeDefinition', 'interface_has', 'Interface', 's_fields_definition()@', FD, 'Field', 'f', 'field_additions', 'field_removals', 'common_fields_has', 'o.s_name(), ', flds=('old_interface_definition', 'new_interface_definition'), diffcall='field_has')
typediff('object_type.rs', 'ObjectTypeDiff', 'ObjectTypeDefinition', 'object_has', 'Object', 's_fields_definition()@', FD, 'Field', 'f', 'field_additions', 'field_removals', 'common_fields_has', 'o.s_name(), ', diffcall='field_has', iface=True)
# directive definitions
T = 'DirectiveDefinition'
w(f"""#[verifier::opaque]
pub open spec fn dd_has<'a>(o: {T}, n: {T}, c: ChangeV<'a>) -> bool {{ (match c {{
    ChangeV::DirectiveDefinitionDescriptionChanged {{ d, e }} => d == o && e == n && desc_differs(o.s_description(), n.s_description()),
    ChangeV::DirectiveDefinitionLocationAdded {{ ctx, l }} => ctx == o.s_name() && n.s_locations()@.contains(l) && !o.s_locations()@.contains(l),
    ChangeV::DirectiveDefinitionLocationRemoved {{ ctx, l }} => ctx == o.s_name() && o.s_locations()@.contains(l) && !n.s_locations()@.contains(l),
    ChangeV::DirectiveDefinitionArgumentAdded {{ ctx, a }} => ctx == o.s_name() && n.s_arguments_definition().contains(a) && !named_in(o.s_arguments_definition(), a.s_name()),
    ChangeV::DirectiveDefinitionArgumentRemoved {{ ctx, a }} => ctx == o.s_name() && o.s_arguments_definition().contains(a) && !named_in(n.s_arguments_definition(), a.s_name()),
    _ => false }}) || common_dda_has(o.s_name(), o.s_arguments_definition(), n.s_arguments_definition(), c) }}""")
F = 'directive_definition.rs', 'DirectiveDefinitionDiff'
struct(*F)
new(*F, ['old_directive_definition', 'new_directive_definition'])
o_, n_ = 'self.old_directive_definition', 'self.new_directive_definition'
sub(*F, 'argument_additions', IVD, n_ + '.s_arguments_definition()', o_ + '.s_arguments_definition()')
sub(*F, 'argument_removals', IVD, o_ + '.s_arguments_definition()', n_ + '.s_arguments_definition()')
for nm, a, b in (('location_additions', n_, o_), ('location_removals', o_, n_)):
    fn(*F, nm, f'ensures forall|x: &DirectiveLocation| #![trigger r@.contains(x)] #![trigger {a}.s_locations()@.contains(*x)] r@.contains(x) <==> {a}.s_locations()@.contains(*x) && !{b}.s_locations()@.contains(*x)',
       [('~push', f'@push acc z: !{b}.s_locations()@.contains(z) =>> &z'), ('*~!push', '@any y: y == $up')], sig=f"fn {nm}(&self) -> (r: ItV<&'a DirectiveLocation>)")
na = n_ + '.s_arguments_definition()'
diff(*F, 'dd_has', ['*' + o_, '*' + n_], [
    ('~' + v, f'@pushc $mut0 z: true =>> ChangeV::{v} {{ ctx: {o_}.s_name(), {x}: *z }}') for v, x in (('DirectiveDefinitionLocationAdded', 'l'), ('DirectiveDefinitionLocationRemoved', 'l'), ('DirectiveDefinitionArgumentAdded', 'a'), ('DirectiveDefinitionArgumentRemoved', 'a'))]
    + findloop(f'dda_has({o_}.s_name(), z, first({na}, z.s_name())->0, __c)', na), req=f'{o_}.s_name() == {n_}.s_name()')
# --- the schema ----------------------------------------------------------------------------------------------------
w(r"""#[verifier::opaque]
pub open spec fn type_has<'a>(o: TypeDefinitionReference<'a>, n: TypeDefinitionReference<'a>, c: ChangeV<'a>) -> bool {
    (match c {
        ChangeV::TypeKindChanged { t, u } => t == o && u == n && o.kind2() != n.kind2(),
        ChangeV::TypeDescriptionChanged { t, u } => t == o && u == n && desc_differs(o.s_description(), n.s_description()),
        _ => false })
    || (match (o, n) {
        (TypeDefinitionReference::Object(a), TypeDefinitionReference::Object(b)) => object_has(*a, *b, c),
        (TypeDefinitionReference::Enum(a), TypeDefinitionReference::Enum(b)) => enum_has(*a, *b, c),
        (TypeDefinitionReference::Union(a), TypeDefinitionReference::Union(b)) => union_has(*a, *b, c),
        (TypeDefinitionReference::Interface(a), TypeDefinitionReference::Interface(b)) => interface_has(*a, *b, c),
        (TypeDefinitionReference::InputObject(a), TypeDefinitionReference::InputObject(b)) => input_object_has(*a, *b, c),
        (TypeDefinitionReference::CustomScalar(a), TypeDefinitionReference::CustomScalar(b)) => dirs_has(a.s_directives(), b.s_directives(), DirectiveLocation::Scalar, a.s_name(), c),
        _ => false }) }
pub open spec fn common_types_has<'a>(o: Seq<TypeDefinitionReference<'a>>, n: Seq<TypeDefinitionReference<'a>>, c: ChangeV<'a>) -> bool { exists|i: int| 0 <= i < o.len() && first(n, (#[trigger] o[i]).s_name()) is Some && type_has(o[i], first(n, o[i].s_name())->0, c) }
pub open spec fn common_dd_has<'a>(o: Seq<DirectiveDefinition>, n: Seq<DirectiveDefinition>, c: ChangeV<'a>) -> bool { exists|i: int| 0 <= i < o.len() && first(n, (#[trigger] o[i]).s_name()) is Some && dd_has(o[i], first(n, o[i].s_name())->0, c) }
pub open spec fn no_name() -> Seq<char> { ""@ }
#[verifier::opaque]
pub open spec fn schema_has<'a>(o: &'a SchemaDefinition, n: &'a SchemaDefinition, c: ChangeV<'a>) -> bool {
    (match c {
        ChangeV::TypeRemoved { t } => o.s_type_definitions().contains(t) && !named_in(n.s_type_definitions(), t.s_name()),
        ChangeV::TypeAdded { t } => n.s_type_definitions().contains(t) && !named_in(o.s_type_definitions(), t.s_name()),
        ChangeV::DirectiveDefinitionRemoved { d } => o.s_directive_definitions().contains(d) && !named_in(n.s_directive_definitions(), d.s_name()),
        ChangeV::DirectiveDefinitionAdded { d } => n.s_directive_definitions().contains(d) && !named_in(o.s_directive_definitions(), d.s_name()),
        _ => false })
    || dirs_has(o.s_directives(), n.s_directives(), DirectiveLocation::Schema, no_name(), c)
    || common_types_has(o.s_type_definitions(), n.s_type_definitions(), c)
    || common_dd_has(o.s_directive_definitions(), n.s_directive_definitions(), c) }""")
F = 'schema.rs', 'SchemaDiff'
w(f'//@item src={D}schema.rs name=SchemaDiff subst="< \'a , S : SchemaDefinition > ==> < \'a >;;& \'a S ==> & \'a SchemaDefinition"')
fn(*F, 'new', 'ensures r.old_schema_definition == $0, r.new_schema_definition == $1', sig="fn new($0: &'a SchemaDefinition, $1: &'a SchemaDefinition) -> (r: SchemaDiff<'a>)")
o_, n_ = 'self.old_schema_definition', 'self.new_schema_definition'
DD = 'DirectiveDefinition'
for nm, a, b in (('removed_types', o_, n_), ('added_types', n_, o_)):
    fn(*F, nm, f"ensures forall|x: TypeDefinitionReference<'a>| #![trigger r@.contains(x)] #![trigger {a}.s_type_definitions().contains(x)] r@.contains(x) <==> {a}.s_type_definitions().contains(x) && !named_in({b}.s_type_definitions(), x.s_name())",
       [('~push', f'@push acc z: !named_in({b}.s_type_definitions(), z.s_name()) =>> z'), ('*~!push', '@any y: y.s_name() == $up.s_name()')], sig=f"fn {nm}(&self) -> (r: ItV<TypeDefinitionReference<'a>>)")
for nm, a, b in (('removed_directive_definitions', o_, n_), ('added_directive_definitions', n_, o_)):
    fn(*F, nm, f"ensures forall|x: &{DD}| #![trigger r@.contains(x)] #![trigger {a}.s_directive_definitions().contains(*x)] r@.contains(x) <==> {a}.s_directive_definitions().contains(*x) && !named_in({b}.s_directive_definitions(), x.s_name())",
       [('~push', f'@push acc z: !named_in({b}.s_directive_definitions(), z.s_name()) =>> &z'), ('*~!push', '@any y: y.s_name() == $up.s_name()')], sig=f"fn {nm}(&self) -> (r: ItV<&'a {DD}>)")
fn(*F, 'changes_in_type', "requires $0.s_name() == $1.s_name()\n    ensures forall|c: ChangeV<'a>| #![trigger hasc(r@, c)] #![trigger type_has($0, $1, c)] hasc(r@, c) <==> type_has($0, $1, c)",
   [(k, l.replace('self.old_type_definition', '$0')) for k, l in dirloops('Scalar', '$0', '')],
   sig="fn changes_in_type(&self, $0: TypeDefinitionReference<'a>, $1: TypeDefinitionReference<'a>) -> (r: Vec<Change<'a>>)", extra='//@ at start\nproof { reveal(type_has); }\n')
diff(*F, 'schema_has', [o_, n_], [
    ('~TypeRemoved', '@pushc $mut0 z: true =>> ChangeV::TypeRemoved { t: z }'),
    ('~TypeAdded', '@pushc $mut0 z: true =>> ChangeV::TypeAdded { t: z }'),
    ('~DirectiveDefinitionRemoved', '@pushc $mut0 z: true =>> ChangeV::DirectiveDefinitionRemoved { d: *z }'),
    ('~DirectiveDefinitionAdded', '@pushc $mut0 z: true =>> ChangeV::DirectiveDefinitionAdded { d: *z }'),
    ('~changes_in_type', f'@extc $mut0 z: first({n_}.s_type_definitions(), z.s_name()) is Some && type_has(z, first({n_}.s_type_definitions(), z.s_name())->0, __c)'),
    ('~diff', f'@extc $mut0 z: first({n_}.s_directive_definitions(), z.s_name()) is Some && dd_has(z, first({n_}.s_directive_definitions(), z.s_name())->0, __c)')]
    + [(k, l.replace('OLD.s_name()', 'no_name()')) for k, l in dirloops('Schema', 'OLD', '')] + [('*~', '@first $up.s_name()')])
w("""//@item src=bluejay-schema-comparator/src/result.rs name=ComparisonResult subst="< 'a , S : SchemaDefinition > ==> < 'a >;;Change < 'a , S > ==> Change < 'a >"
// sorts the changes by criticality (slice::sort_by_key permutes)
impl<'a> ComparisonResult<'a> { #[verifier::external_body] pub fn new(changes: Vec<Change<'a>>) -> (r: ComparisonResult<'a>)
    ensures forall|c: ChangeV<'a>| #![trigger hasc(r.changes@, c)] #![trigger hasc(changes@, c)] hasc(r.changes@, c) <==> hasc(changes@, c) { unimplemented!() } }
//@subst diff :: SchemaDiff ==> SchemaDiff
//@fn src=bluejay-schema-comparator/src/lib.rs fn=compare header=""
    ensures forall|c: ChangeV<'a>| #![trigger hasc(r.changes@, c)] #![trigger schema_has($0, $1, c)] hasc(r.changes@, c) <==> schema_has($0, $1, c)
//@ sig fn compare<'a>($0: &'a SchemaDefinition, $1: &'a SchemaDefinition) -> (r: ComparisonResult<'a>)
//@end
}""")
open(os.path.join(V, 'units', 'cmp_diff.inc'), 'w').write('\n'.join(o) + '\n')
