// Types: the wrapping structure of a type reference, as the shallow-reference accessors describe it.
pub enum TyV { Base(Seq<char>, bool), List(Box<TyV>, bool) }
pub open spec fn ty_required(t: TyV) -> bool { match t { TyV::Base(_, q) => q, TyV::List(_, q) => q } }
pub open spec fn ty_base(t: TyV) -> Seq<char> decreases t { match t { TyV::Base(n, _) => n, TyV::List(i, _) => ty_base(*i) } }
//@item src=bluejay-core/src/definition/output_type.rs name=ShallowOutputTypeReference subst="< 'a , O : OutputType > ==> < 'a >;;& 'a O ==> & 'a OutputType"
//@item src=bluejay-core/src/definition/input_type.rs name=ShallowInputTypeReference subst="< 'a , I : InputType > ==> < 'a >;;& 'a I ==> & 'a InputType"
impl<'a> ShallowOutputTypeReference<'a> { pub open spec fn v(&self) -> TyV { match self { ShallowOutputTypeReference::Base(n, q) => TyV::Base(n@, *q), ShallowOutputTypeReference::List(i, q) => TyV::List(Box::new(i.v()), *q) } } }
impl<'a> ShallowInputTypeReference<'a> { pub open spec fn v(&self) -> TyV { match self { ShallowInputTypeReference::Base(n, q) => TyV::Base(n@, *q), ShallowInputTypeReference::List(i, q) => TyV::List(Box::new(i.v()), *q) } } }
impl OutputType { pub uninterp spec fn v(&self) -> TyV;
    #[verifier::external_body] pub fn as_shallow_ref(&self) -> (r: ShallowOutputTypeReference<'_>) ensures r.v() == self.v() { unimplemented!() } }
impl InputType { pub uninterp spec fn v(&self) -> TyV;
    #[verifier::external_body] pub fn as_shallow_ref(&self) -> (r: ShallowInputTypeReference<'_>) ensures r.v() == self.v() { unimplemented!() } }
//@fn src=bluejay-core/src/definition/output_type.rs impl=ShallowOutputTypeReference fn=is_required header="impl<'a> ShallowOutputTypeReference<'a>"
    ensures r == ty_required(self.v())
//@end
//@fn src=bluejay-core/src/definition/input_type.rs impl=ShallowInputTypeReference fn=is_required header="impl<'a> ShallowInputTypeReference<'a>"
    ensures r == ty_required(self.v())
//@end
//@fn src=bluejay-core/src/definition/output_type.rs impl=trait:OutputType fn=is_required header="impl OutputType"
    ensures r == ty_required(self.v())
//@end
//@fn src=bluejay-core/src/definition/input_type.rs impl=trait:InputType fn=is_required header="impl InputType"
    ensures r == ty_required(self.v())
//@end
//@fn src=bluejay-core/src/definition/output_type.rs impl=ShallowOutputTypeReference fn=base_name header="impl<'a> ShallowOutputTypeReference<'a>"
    ensures r@ == ty_base(self.v()) decreases ty_depth(self.v())
//@end
//@fn src=bluejay-core/src/definition/output_type.rs impl=trait:OutputType fn=base_name header="impl OutputType"
    ensures r@ == ty_base(self.v())
//@end
pub open spec fn ty_depth(t: TyV) -> nat decreases t { match t { TyV::Base(..) => 0, TyV::List(i, _) => 1 + ty_depth(*i) } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for ShallowOutputTypeReference<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.v() == o.v() } }
//@fn src=bluejay-core/src/definition/output_type.rs impl=PartialEq:ShallowOutputTypeReference fn=eq traitimpl header="impl<'a> PartialEq for ShallowOutputTypeReference<'a>"
    ensures r == (self.v() == $0.v()) decreases ty_depth(self.v())
//@end
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for ShallowInputTypeReference<'a> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.v() == o.v() } }
//@fn src=bluejay-core/src/definition/input_type.rs impl=PartialEq:ShallowInputTypeReference fn=eq traitimpl header="impl<'a> PartialEq for ShallowInputTypeReference<'a>"
    ensures r == (self.v() == $0.v()) decreases ty_depth(self.v())
//@end
