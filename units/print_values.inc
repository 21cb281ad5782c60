// ---- accessors of the parsed tree --------------------------------------------------------------------
//@method iter/0 ==> $self.it_()
//@rtype it_=iter alias=opt directives=opt arguments=opt
//@known it_ iter is_empty fmt fmt_debug new
pub struct Sl<'b, T> { pub s: &'b Vec<T>, pub i: usize }
impl<'b, T> Sl<'b, T> {
    pub fn next(&mut self) -> (r: Option<&'b T>)
        requires old(self).i <= old(self).s@.len()
        ensures final(self).s == old(self).s, final(self).i <= final(self).s@.len(),
            old(self).i < old(self).s@.len() ==> r == Some(&old(self).s@[old(self).i as int]) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i
    { if self.i < self.s.len() { let x = &self.s[self.i]; self.i = self.i + 1; Some(x) } else { None } }
}
pub trait VecIt<T> { spec fn els(&self) -> Seq<T>; fn it_(&self) -> (r: Sl<'_, T>) ensures r.s@ == self.els(), r.i == 0; }
impl<T> VecIt<T> for Vec<T> { open spec fn els(&self) -> Seq<T> { self@ } fn it_(&self) -> (r: Sl<'_, T>) { Sl { s: self, i: 0 } } }
impl<'a> CowStr<'a> { pub uninterp spec fn view(&self) -> Seq<char>; #[verifier::external_body] pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
//@fn src=bluejay-parser/src/lexical_token/string_value.rs impl=StringValue fn=as_str id=StringValue::as_str
    ensures r@ == self.contents@
//@end
//@fn src=bluejay-parser/src/lexical_token/string_value.rs impl=AsRef:StringValue fn=as_ref id=StringValue::as_ref
    ensures r@ == self.contents@
//@end
//@fn src=bluejay-parser/src/lexical_token/int_value.rs impl=IntValue fn=value id=IntValue::value
    ensures r == self.value
//@end
//@fn src=bluejay-parser/src/lexical_token/float_value.rs impl=FloatValue fn=value id=FloatValue::value
    ensures r == self.value
//@end
//@fn src=bluejay-parser/src/lexical_token/variable_name.rs impl=Variable fn=name id=Variable::name
    ensures r@ == self.value@
//@end
//@fn src=bluejay-parser/src/lexical_token/variable_name.rs impl=Variable fn=as_str id=Variable::as_str
    ensures r@ == self.value@
//@end
//@fn src=bluejay-parser/src/ast/value.rs impl=BooleanValue fn=value id=BooleanValue::value
    ensures r == self.value
//@end
//@item src=bluejay-core/src/value.rs name=ValueReference subst="< 'a , const CONST : bool , V : Value < CONST > > ==> < 'b , 'a , const CONST : bool >;;& 'a V :: Variable ==> & 'b Variable < 'a >;;& 'a V :: List ==> & 'b ListValue < 'a , CONST >;;& 'a V :: Object ==> & 'b ObjectValue < 'a , CONST >;;String ( & 'a str ) ==> String ( & 'b str );;Enum ( & 'a str ) ==> Enum ( & 'b str )"
pub open spec fn value_shown<'b, 'a, const CONST: bool>(v: Value<'a, CONST>, r: ValueReference<'b, 'a, CONST>) -> bool { match v {
    Value::Variable(x) => r is Variable && *r->Variable_0 == x, Value::Integer(x) => r is Integer && r->Integer_0 == x.value, Value::Float(x) => r is Float && r->Float_0 == x.value,
    Value::String(x) => r is String && r->String_0@ == x.contents@, Value::Boolean(x) => r is Boolean && r->Boolean_0 == x.value, Value::Null(x) => r is Null,
    Value::Enum(x) => r is Enum && r->Enum_0@ == x.value@, Value::List(x) => r is List && *r->List_0 == x, Value::Object(x) => r is Object && *r->Object_0 == x } }
//@fn src=bluejay-parser/src/ast/value.rs impl=CoreValue:Value fn=as_ref id=Value::as_ref header="impl<'a, const CONST: bool> Value<'a, CONST>"
    ensures value_shown(*self, r)
//@ sig fn as_ref<'b>(&'b self) -> (r: ValueReference<'b, 'a, CONST>)
//@end
//@fn src=bluejay-parser/src/ast/value.rs impl=AsIter:ListValue fn=iter as=it_ id=ListValue::iter header="impl<'a, const CONST: bool> ListValue<'a, CONST>"
    ensures r.s@ == self.elements@, r.i == 0
//@ sig fn it_<'b>(&'b self) -> (r: Sl<'b, Value<'a, CONST>>)
//@end
//@fn src=bluejay-parser/src/ast/arguments.rs impl=AsIter:Arguments fn=iter as=it_ id=Arguments::iter header="impl<'a, const CONST: bool> Arguments<'a, CONST>"
    ensures r.s@ == self.arguments@, r.i == 0
//@ sig fn it_<'b>(&'b self) -> (r: Sl<'b, Argument<'a, CONST>>)
//@end
//@fn src=bluejay-core/src/as_iter.rs impl=trait:AsIter fn=is_empty id=Arguments::is_empty header="impl<'a, const CONST: bool> Arguments<'a, CONST>"
    ensures r == (self.arguments@.len() == 0)
//@end
//@fn src=bluejay-parser/src/ast/directives.rs impl=AsIter:Directives fn=iter as=it_ id=Directives::iter header="impl<'a, const CONST: bool> Directives<'a, CONST>"
    ensures r.s@ == self.directives@, r.i == 0
//@ sig fn it_<'b>(&'b self) -> (r: Sl<'b, Directive<'a, CONST>>)
//@end
//@fn src=bluejay-parser/src/ast/argument.rs impl=Argument:Argument fn=name id=Argument::name header="impl<'a, const CONST: bool> Argument<'a, CONST>"
    ensures r@ == self.name.value@
//@end
//@fn src=bluejay-parser/src/ast/argument.rs impl=Argument:Argument fn=value id=Argument::value header="impl<'a, const CONST: bool> Argument<'a, CONST>"
    ensures *r == self.value
//@end
//@fn src=bluejay-parser/src/ast/directive.rs impl=Directive:Directive fn=name id=Directive::name header="impl<'a, const CONST: bool> Directive<'a, CONST>"
    ensures r@ == self.name.value@
//@end
//@fn src=bluejay-parser/src/ast/directive.rs impl=Directive:Directive fn=arguments id=Directive::arguments header="impl<'a, const CONST: bool> Directive<'a, CONST>"
    ensures r is Some == self.arguments is Some, r is Some ==> *r->0 == self.arguments->0
//@ sig fn arguments(&self) -> (r: Option<&Arguments<'a, CONST>>)
//@end

// ObjectValue::iter: the pairs of the fields, in order
pub struct SlP<'b, 'a, const CONST: bool> { pub s: &'b Vec<(Name<'a>, Value<'a, CONST>)>, pub i: usize }
impl<'b, 'a, const CONST: bool> SlP<'b, 'a, CONST> {
    pub fn next(&mut self) -> (r: Option<(&'b Name<'a>, &'b Value<'a, CONST>)>)
        requires old(self).i <= old(self).s@.len()
        ensures final(self).s == old(self).s, final(self).i <= final(self).s@.len(),
            old(self).i < old(self).s@.len() ==> r is Some && *(r->0).0 == old(self).s@[old(self).i as int].0 && *(r->0).1 == old(self).s@[old(self).i as int].1 && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i
    { if self.i < self.s.len() { let x = &self.s[self.i]; self.i = self.i + 1; Some((&x.0, &x.1)) } else { None } }
}
pub fn __pairs<'b, 'a, const CONST: bool>(s: &'b Vec<(Name<'a>, Value<'a, CONST>)>) -> (r: SlP<'b, 'a, CONST>) ensures r.s@ == s@, r.i == 0 { SlP { s, i: 0 } }
//@fn src=bluejay-parser/src/ast/value.rs impl=CoreObjectValue:ObjectValue fn=iter as=it_ id=ObjectValue::iter header="impl<'a, const CONST: bool> ObjectValue<'a, CONST>"
    ensures r.s@ == self.fields@, r.i == 0
//@ sig fn it_<'b>(&'b self) -> (r: SlP<'b, 'a, CONST>)
//@ subst self . fields . iter ( ) . map ( | ( key , value ) | ( key , value ) ) ==> __pairs ( & self . fields )
//@end
// ---- value.rs, argument.rs, directive.rs (bluejay-printer) --------------------------------------------
// string_value.rs: what it writes lexes to one string token with the same contents (assumed here; explored by the harness)
pub struct StringValuePrinter<'b>(pub &'b str);
impl<'b> StringValuePrinter<'b> {
    #[verifier::external_body] pub fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
        requires old(f).last() is Other || old(f).last() is Word
        ensures r is Ok, final(f).out() == old(f).out().push(KTok::Str(self.0@)), final(f).last() is Quote { unimplemented!() }
}
//@fn src=bluejay-printer/src/string_value.rs impl=StringValuePrinter fn=new id=StringValuePrinter::new
    ensures r.0@ == value@
//@end
//@item src=bluejay-printer/src/value.rs name=ValuePrinter subst="< 'a , const CONST : bool , V : Value < CONST > > ==> < 'b , 'a , const CONST : bool >;;& 'a V ==> & 'b Value < 'a , CONST >"
//@fn src=bluejay-printer/src/value.rs impl=ValuePrinter fn=new id=ValuePrinter::new header="impl<'b, 'a, const CONST: bool> ValuePrinter<'b, 'a, CONST>"
    ensures *r.0 == *value
//@ sig fn new(value: &'b Value<'a, CONST>) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/value.rs impl=Display:ValuePrinter fn=fmt id=ValuePrinter::fmt header="impl<'b, 'a, const CONST: bool> ValuePrinter<'b, 'a, CONST>"
    requires old(f).last() is Other
    ensures r is Ok, !(final(f).last() is Dollar), forall|k: Seq<KTok>| #![trigger p_value(self.0.v(), k)] old(f).out() + p_value(self.0.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ attrs #[verifier::exec_allows_no_decreases_clause]
//@ at start
    broadcast use print_lemmas, values_group;
    let ghost f0 = f.out();
//@ loop 0
    invariant $it.i <= $it.s@.len(), $ix == $it.i, !(f.last() is Dollar), $it.i == 0 ==> f.last() is Other, self.0.v() == GValue::List(vals_v($it.s@)),
        forall|k: Seq<KTok>| #![trigger p_value(self.0.v(), k)] f0 + p_value(self.0.v(), k) == f.out() + p_vals(vals_v($it.s@).skip($it.i as int), cons(KTok::P(PunctuatorType::CloseSquareBracket), k))
    ensures $it.i == $it.s@.len()
    decreases $it.s@.len() - $it.i
//@ loop 1
    invariant $it.i <= $it.s@.len(), $ix == $it.i, !(f.last() is Dollar), $it.i == 0 ==> f.last() is Other, self.0.v() == GValue::Object(obj_v($it.s@)),
        forall|k: Seq<KTok>| #![trigger p_value(self.0.v(), k)] f0 + p_value(self.0.v(), k) == f.out() + p_fields(obj_v($it.s@).skip($it.i as int), cons(KTok::P(PunctuatorType::CloseBrace), k))
    ensures $it.i == $it.s@.len()
    decreases $it.s@.len() - $it.i
//@ at loop 0 end
    proof { p_vals_at(vals_v($it.s@), $it.i - 1); }
//@ at loop 1 end
    proof { p_fields_at(obj_v($it.s@), $it.i - 1); }
//@end

//@item src=bluejay-printer/src/argument.rs name=ArgumentPrinter subst="< 'a , const CONST : bool , T : Argument < CONST > > ==> < 'b , 'a , const CONST : bool >;;& 'a T ==> & 'b Argument < 'a , CONST >"
//@fn src=bluejay-printer/src/argument.rs impl=ArgumentPrinter fn=new id=ArgumentPrinter::new header="impl<'b, 'a, const CONST: bool> ArgumentPrinter<'b, 'a, CONST>"
    ensures *r.0 == *argument
//@ sig fn new(argument: &'b Argument<'a, CONST>) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/argument.rs impl=Display:ArgumentPrinter fn=fmt id=ArgumentPrinter::fmt header="impl<'b, 'a, const CONST: bool> ArgumentPrinter<'b, 'a, CONST>"
    requires old(f).last() is Other
    ensures r is Ok, !(final(f).last() is Dollar), forall|k: Seq<KTok>| #![trigger p_arg(self.0.v(), k)] old(f).out() + p_arg(self.0.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ at start
    broadcast use print_lemmas, values_group;
//@end
//@item src=bluejay-printer/src/argument.rs name=ArgumentsPrinter subst="< 'a , const CONST : bool , T : Arguments < CONST > > ==> < 'b , 'a , const CONST : bool >;;& 'a T ==> & 'b Arguments < 'a , CONST >"
//@fn src=bluejay-printer/src/argument.rs impl=ArgumentsPrinter fn=new id=ArgumentsPrinter::new header="impl<'b, 'a, const CONST: bool> ArgumentsPrinter<'b, 'a, CONST>"
    ensures *r.0 == *arguments
//@ sig fn new(arguments: &'b Arguments<'a, CONST>) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/argument.rs impl=Display:ArgumentsPrinter fn=fmt id=ArgumentsPrinter::fmt header="impl<'b, 'a, const CONST: bool> ArgumentsPrinter<'b, 'a, CONST>"
    requires !(old(f).last() is Dollar)
    ensures r is Ok, !(final(f).last() is Dollar), forall|k: Seq<KTok>| #![trigger p_arglist(self.0.v(), k)] old(f).out() + p_arglist(self.0.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ at start
    broadcast use print_lemmas, values_group;
    let ghost f0 = f.out();
//@ loop 0
    invariant $it.i <= $it.s@.len(), $ix == $it.i, !(f.last() is Dollar), $it.i == 0 ==> f.last() is Other, self.0.v() == args_v($it.s@),
        forall|k: Seq<KTok>| #![trigger p_arglist(self.0.v(), k)] f0 + p_arglist(self.0.v(), k) == f.out() + p_args(args_v($it.s@).skip($it.i as int), cons(KTok::P(PunctuatorType::CloseRoundBracket), k))
    ensures $it.i == $it.s@.len()
    decreases $it.s@.len() - $it.i
//@ at loop 0 end
    proof { p_args_at(args_v($it.s@), $it.i - 1); }
//@end
//@item src=bluejay-printer/src/directive.rs name=DirectivePrinter subst="< 'a , const CONST : bool , T : Directive < CONST > > ==> < 'b , 'a , const CONST : bool >;;& 'a T ==> & 'b Directive < 'a , CONST >"
//@fn src=bluejay-printer/src/directive.rs impl=DirectivePrinter fn=new id=DirectivePrinter::new header="impl<'b, 'a, const CONST: bool> DirectivePrinter<'b, 'a, CONST>"
    ensures *r.0 == *directive
//@ sig fn new(directive: &'b Directive<'a, CONST>) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/directive.rs impl=Display:DirectivePrinter fn=fmt id=DirectivePrinter::fmt header="impl<'b, 'a, const CONST: bool> DirectivePrinter<'b, 'a, CONST>"
    requires !(old(f).last() is Dollar)
    ensures r is Ok, !(final(f).last() is Dollar), forall|k: Seq<KTok>| #![trigger p_dir(self.0.v(), k)] old(f).out() + p_dir(self.0.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ at start
    broadcast use print_lemmas, values_group;
//@end
//@item src=bluejay-printer/src/directive.rs name=DirectivesPrinter subst="< 'a , const CONST : bool , T : Directives < CONST > > ==> < 'b , 'a , const CONST : bool >;;& 'a T ==> & 'b Directives < 'a , CONST >"
//@fn src=bluejay-printer/src/directive.rs impl=DirectivesPrinter fn=new id=DirectivesPrinter::new header="impl<'b, 'a, const CONST: bool> DirectivesPrinter<'b, 'a, CONST>"
    ensures *r.0 == *directives
//@ sig fn new(directives: &'b Directives<'a, CONST>) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/directive.rs impl=Display:DirectivesPrinter fn=fmt id=DirectivesPrinter::fmt header="impl<'b, 'a, const CONST: bool> DirectivesPrinter<'b, 'a, CONST>"
    requires !(old(f).last() is Dollar)
    ensures r is Ok, !(final(f).last() is Dollar), forall|k: Seq<KTok>| #![trigger p_dirs(self.0.v(), k)] old(f).out() + p_dirs(self.0.v(), k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ at start
    broadcast use print_lemmas, values_group;
    let ghost f0 = f.out();
//@ loop 0
    invariant $it.i <= $it.s@.len(), !(f.last() is Dollar), self.0.v() == dirs_v($it.s@),
        forall|k: Seq<KTok>| #![trigger p_dirs(self.0.v(), k)] f0 + p_dirs(self.0.v(), k) == f.out() + p_dirs(dirs_v($it.s@).skip($it.i as int), k)
    ensures $it.i == $it.s@.len()
    decreases $it.s@.len() - $it.i
//@ at loop 0 end
    proof { p_dirs_at(dirs_v($it.s@), $it.i - 1); }
//@end
