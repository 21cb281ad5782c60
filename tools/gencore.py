#!/usr/bin/env python3
"""Writes units/core.inc: opaque Verus types for the associated types of bluejay_core's traits, one uninterpreted
spec function per accessor. Any implementation of the traits whose accessors are pure satisfies these contracts."""
import os
T = '''
FieldDefinition : name str; description ?str; arguments_definition ?[InputValueDefinition]; type_ &OutputType; is_builtin bool; directives ?[Directive<true>]
InputValueDefinition : name str; description ?str; type_ &InputType; default_value ?Value<true>; directives ?[Directive<true>]
EnumValueDefinition : name str; description ?str; directives ?[Directive<true>]
InterfaceImplementation : name str
UnionMemberType : name str
ScalarTypeDefinition : name str; description ?str; directives ?[Directive<true>]
EnumTypeDefinition : name str; description ?str; enum_value_definitions [EnumValueDefinition]; is_builtin bool; directives ?[Directive<true>]
InputObjectTypeDefinition : name str; description ?str; input_field_definitions [InputValueDefinition]; directives ?[Directive<true>]
InterfaceTypeDefinition : name str; description ?str; interface_implementations ?[InterfaceImplementation]; fields_definition [FieldDefinition]; directives ?[Directive<true>]
ObjectTypeDefinition : name str; description ?str; interface_implementations ?[InterfaceImplementation]; fields_definition [FieldDefinition]; is_builtin bool; directives ?[Directive<true>]
UnionTypeDefinition : name str; description ?str; union_member_types [UnionMemberType]; fields_definition [FieldDefinition]; directives ?[Directive<true>]
DirectiveDefinition : name str; description ?str; arguments_definition ?[InputValueDefinition]; is_repeatable bool; locations [DirectiveLocation]; is_builtin bool
Argument<const C: bool> : name str; value &Value<C>
Directive<const C: bool> : name str; arguments ?[Argument<C>]
VariableDefinition : variable str; type_ &VariableType; directives ?[Directive<true>]; default_value ?Value<true>
FragmentDefinition : name str; type_condition str; directives ?[Directive<false>]; selection_set [Selection]
FragmentSpread : name str; directives ?[Directive<false>]
InlineFragment : type_condition ?str; directives ?[Directive<false>]; selection_set [Selection]
Field : alias ?str; name str; arguments ?[Argument<false>]; directives ?[Directive<false>]; selection_set ?[Selection]
ExplicitOperationDefinition : operation_type =OperationType; name ?str; variable_definitions ?[VariableDefinition]; directives ?[Directive<false>]; selection_set [Selection]
ImplicitOperationDefinition : selection_set [Selection]
OperationDefinition :
ExecutableDocument : operation_definitions ~OperationDefinition; fragment_definitions ~FragmentDefinition
SchemaDefinition : description ?str; query &ObjectTypeDefinition; mutation ?ObjectTypeDefinition; subscription ?ObjectTypeDefinition; directives ?[Directive<true>]; directive_definitions ~DirectiveDefinition
OutputType :
InputType :
VariableType :
Value<const C: bool> :
Selection :
Variable : name str
'''
def split(ty):
    n = ty.split('<')[0]
    return (n, '<const C: bool>', '<C>') if '<' in ty else (ty, '', '')
out = ['// Generated by tools/gencore.py: opaque stand-ins for the associated types of the bluejay_core traits.', '// $-directives below map the generic paths of the source to these types.']
names = []
hasdir = []
named = []
for line in T.strip().split('\n'):
    ty, ms = [x.strip() for x in line.split(' :', 1)]
    n, gd, gu = split(ty)
    names.append(n)
    out.append(f'#[verifier::external_body]\npub struct {n}{gd} {{ x: u8 }}')
    body = []
    for m in [x.strip() for x in ms.split(';') if x.strip()]:
        f, t = m.split(' ', 1)
        E = '#[verifier::external_body] pub fn'
        if f == 'name' and t == 'str': named.append((n, gd, gu))
        if f == 'directives' : hasdir.append((n, gd, gu))
        if t == 'str':
            body.append(f'    pub uninterp spec fn s_{f}(&self) -> Seq<char>;\n    {E} {f}(&self) -> (r: &str) ensures r@ == self.s_{f}() {{ unimplemented!() }}')
        elif t == '?str':
            body.append(f'    pub uninterp spec fn s_{f}(&self) -> Option<Seq<char>>;\n    {E} {f}(&self) -> (r: Option<&str>) ensures match r {{ Some(x) => self.s_{f}() == Some(x@), None => self.s_{f}() is None }} {{ unimplemented!() }}')
        elif t == 'bool':
            body.append(f'    pub uninterp spec fn s_{f}(&self) -> bool;\n    {E} {f}(&self) -> (r: bool) ensures r == self.s_{f}() {{ unimplemented!() }}')
        elif t.startswith('='):
            body.append(f'    pub uninterp spec fn s_{f}(&self) -> {t[1:]};\n    {E} {f}(&self) -> (r: {t[1:]}) ensures r == self.s_{f}() {{ unimplemented!() }}')
        elif t.startswith('['):
            body.append(f'    pub uninterp spec fn s_{f}(&self) -> List<{t[1:-1]}>;\n    {E} {f}(&self) -> (r: &List<{t[1:-1]}>) ensures *r == self.s_{f}() {{ unimplemented!() }}')
        elif t.startswith('?['):
            u = t[2:-1]
            body.append(f'    pub uninterp spec fn o_{f}(&self) -> Option<List<{u}>>;\n    pub open spec fn s_{f}(&self) -> Seq<{u}> {{ olist(self.o_{f}()) }}\n    {E} {f}(&self) -> (r: Option<&List<{u}>>) ensures match r {{ Some(x) => self.o_{f}() == Some(*x), None => self.o_{f}() is None }} {{ unimplemented!() }}')
        elif t.startswith('?'):
            u = t[1:]
            body.append(f'    pub uninterp spec fn s_{f}(&self) -> Option<{u}>;\n    {E} {f}(&self) -> (r: Option<&{u}>) ensures match r {{ Some(x) => self.s_{f}() == Some(*x), None => self.s_{f}() is None }} {{ unimplemented!() }}')
        elif t.startswith('&'):
            body.append(f'    pub uninterp spec fn s_{f}(&self) -> {t[1:]};\n    {E} {f}(&self) -> (r: &{t[1:]}) ensures *r == self.s_{f}() {{ unimplemented!() }}')
        elif t.startswith('~'):
            body.append(f'    pub uninterp spec fn s_{f}(&self) -> Seq<{t[1:]}>;\n    {E} {f}(&self) -> (r: It<\'_, {t[1:]}>) ensures r@ == self.s_{f}() {{ unimplemented!() }}')
        else:
            raise Exception(m)
    if body:
        out.append(f'impl{gd} {n}{gu} {{\n' + '\n'.join(body) + '\n}')
out.append('''pub trait HasDirectives { spec fn h_directives(&self) -> Option<List<Directive<true>>>;
    fn directives(&self) -> (r: Option<&List<Directive<true>>>) ensures match r { Some(x) => self.h_directives() == Some(*x), None => self.h_directives() is None }; }
pub open spec fn dirs<T: HasDirectives>(t: T) -> Seq<Directive<true>> { olist(t.h_directives()) }''')
for n, gd, gu in hasdir:
    if n in ('FieldDefinition','InputValueDefinition','EnumValueDefinition','ScalarTypeDefinition','EnumTypeDefinition','InputObjectTypeDefinition','InterfaceTypeDefinition','ObjectTypeDefinition','UnionTypeDefinition','SchemaDefinition'):
        out.append(f'impl HasDirectives for {n} {{ open spec fn h_directives(&self) -> Option<List<Directive<true>>> {{ self.o_directives() }} fn directives(&self) -> (r: Option<&List<Directive<true>>>) {{ {n}::directives(self) }} }}')
for n, gd, gu in named:
    out.append(f'impl{gd} Named for {n}{gu} {{ open spec fn nm(&self) -> Seq<char> {{ self.s_name() }} }}')
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'units')
open(os.path.join(d, 'core.inc'), 'w').write('\n'.join(out) + '\n')
