// Operations being executed: variable values, which selections are included, and which events the analyzers are sent.
//@method iter/0 ==> $self.it()
//@method not/0 ==> !($self)
//@method copied/0 ==> ocopied($self)
//@known ocopied
//@rtype variable_definitions=opt default_value=opt as_boolean=opt as_integer=opt ocopied=opt get/1=opt arguments=opt directives=opt fragment_definition=opt get_type_definition=opt get_directive_definition=opt arguments_definition=opt evaluate_bool=opt evaluate_int=opt fields_definition=opt mutation=opt subscription=opt operation_definitions=iter selection_set/0=opt
pub fn ocopied<T: Copy>(o: Option<&T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None }) { match o { Some(x) => Some(*x), None => None } }
// generated by enum_as_inner
impl<'a, const C: bool> ValueReference<'a, C> {
    #[verifier::external_body] pub fn as_boolean(&self) -> (r: Option<&bool>) ensures is_opt(r, s_boolean(*self)) { unimplemented!() }
    #[verifier::external_body] pub fn as_integer(&self) -> (r: Option<&i32>) ensures is_opt(r, s_integer(*self)) { unimplemented!() }
}
pub open spec fn s_boolean<const C: bool>(v: ValueReference<'_, C>) -> Option<bool> { match v { ValueReference::Boolean(b) => Some(b), _ => None } }
pub open spec fn s_integer<const C: bool>(v: ValueReference<'_, C>) -> Option<i32> { match v { ValueReference::Integer(b) => Some(b), _ => None } }
// generated by strum (AsRefStr)
impl BuiltinScalarDefinition { #[verifier::external_body] pub fn as_ref(&self) -> (r: &str) ensures r@ == self.s_name() { unimplemented!() } }
// the variable values of a request: entries in order
#[verifier::external_body]
pub struct VarValues { x: u8 }
impl VarValues {
    pub uninterp spec fn e(&self) -> Seq<(&ObjKey, &Value<true>)>;
    #[verifier::external_body] pub fn it(&self) -> (r: ItV<(&ObjKey, &Value<true>)>) ensures r@ == self.e() { unimplemented!() }
}
pub mod opspec { use super::*;
// the first entry with that key
pub open spec fn kv<'a>(s: Seq<(&'a ObjKey, &'a Value<true>)>, n: Seq<char>) -> Option<&'a Value<true>> decreases s.len() { if s.len() == 0 { None } else if s[0].0.s_() == n { Some(s[0].1) } else { kv(s.skip(1), n) } }
pub open spec fn is_ent<'a>(a: Option<(&'a ObjKey, &'a Value<true>)>, r: Option<&'a Value<true>>) -> bool { match a { Some(x) => r == Some(x.1), None => r is None } }
// the first definition of that variable with that nullable or non-null named type
pub open spec fn vardef(s: Seq<VariableDefinition>, n: Seq<char>, t: Seq<char>) -> Option<VariableDefinition> decreases s.len() { if s.len() == 0 { None } else if s[0].s_variable() == n && s[0].s_type_().v() is Base && ty_base(s[0].s_type_().v()) == t { Some(s[0]) } else { vardef(s.skip(1), n, t) } }
// the value of a variable: the one given, or otherwise the default
pub open spec fn var_value(o: OperationDefinition, n: Seq<char>, t: Seq<char>, vv: VarValues) -> Option<Value<true>> {
    match o.o_variable_definitions() { None => None, Some(l) => match vardef(l@, n, t) { None => None, Some(d) => match kv(vv.e(), n) { Some(v) => Some(*v), None => d.s_default_value() } } }
}
pub open spec fn s_bool(o: OperationDefinition, n: Seq<char>, vv: VarValues) -> Option<bool> { match var_value(o, n, "Boolean"@, vv) { Some(v) => s_boolean(v.r()), None => None } }
pub open spec fn s_int(o: OperationDefinition, n: Seq<char>, vv: VarValues) -> Option<i32> { match var_value(o, n, "Int"@, vv) { Some(v) => s_integer(v.r()), None => None } }
// skip and include
pub open spec fn dir_arg(o: OperationDefinition, vv: VarValues, d: Seq<Directive<false>>, n: Seq<char>, a: Seq<char>) -> Option<bool> {
    match first(d, n) { None => None, Some(x) => match x.o_arguments() { None => None, Some(l) => match first(l@, a) { None => None, Some(y) => match y.s_value().r() { ValueReference::Boolean(b) => Some(b), ValueReference::Variable(v) => s_bool(o, v.s_name(), vv), _ => None } } } }
}
pub open spec fn incl(o: OperationDefinition, vv: VarValues, d: Option<List<Directive<false>>>) -> bool {
    match d { None => true, Some(l) => dir_arg(o, vv, l@, "skip"@, "if"@) != Some(true) && dir_arg(o, vv, l@, "include"@, "if"@) != Some(false) }
}
}
pub use opspec::*;
