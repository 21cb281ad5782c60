// ---- schema_definition.rs (bluejay-parser, bluejay-printer) --------------------------------------------------
// std BTreeMap from names to definitions (assumed): its values in the order of its keys
#[verifier::external_body] pub struct TMap<'a> { x: &'a u8 }
#[verifier::external_body] pub struct DMap<'a> { x: &'a u8 }
impl<'a> TMap<'a> { pub uninterp spec fn keys(&self) -> Seq<Seq<char>>; pub uninterp spec fn vals(&self) -> Seq<TypeDefinition<'a>>;
    #[verifier::external_body] pub fn get<'b>(&'b self, name: &str) -> (r: Option<&'b TypeDefinition<'a>>)
        ensures r is Some == self.keys().contains(name@), r is Some ==> exists|i: int| 0 <= i < self.keys().len() && self.keys()[i] == name@ && #[trigger] self.vals()[i] == *r->0 { unimplemented!() } }
impl<'a> DMap<'a> { pub uninterp spec fn vals(&self) -> Seq<DirectiveDefinition<'a>>; }
#[verifier::external_body] pub struct TIt<'b, 'a> { x: &'b &'a u8 }
#[verifier::external_body] pub struct DIt<'b, 'a> { x: &'b &'a u8 }
impl<'b, 'a> TIt<'b, 'a> { pub uninterp spec fn s(&self) -> Seq<TypeDefinition<'a>>; pub uninterp spec fn i(&self) -> int;
    #[verifier::external_body] pub fn nx(&mut self) -> (r: Option<&'b TypeDefinition<'a>>)
        requires 0 <= old(self).i() <= old(self).s().len()
        ensures final(self).s() == old(self).s(), 0 <= final(self).i() <= final(self).s().len(),
            old(self).i() < old(self).s().len() ==> r is Some && *r->0 == old(self).s()[old(self).i()] && final(self).i() == old(self).i() + 1,
            old(self).i() >= old(self).s().len() ==> r is None && final(self).i() == old(self).i() { unimplemented!() }
    pub fn next(&mut self) -> (r: Option<TypeDefinitionReference<'b, 'a>>)
        requires 0 <= old(self).i() <= old(self).s().len()
        ensures final(self).s() == old(self).s(), 0 <= final(self).i() <= final(self).s().len(),
            old(self).i() < old(self).s().len() ==> r is Some && tdr(old(self).s()[old(self).i()], r->0) && final(self).i() == old(self).i() + 1,
            old(self).i() >= old(self).s().len() ==> r is None && final(self).i() == old(self).i()
    { match self.nx() { Some(td) => Some(td.as_ref()), None => None } } }
impl<'b, 'a> DIt<'b, 'a> { pub uninterp spec fn s(&self) -> Seq<DirectiveDefinition<'a>>; pub uninterp spec fn i(&self) -> int;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'b DirectiveDefinition<'a>>)
        requires 0 <= old(self).i() <= old(self).s().len()
        ensures final(self).s() == old(self).s(), 0 <= final(self).i() <= final(self).s().len(),
            old(self).i() < old(self).s().len() ==> r is Some && *r->0 == old(self).s()[old(self).i()] && final(self).i() == old(self).i() + 1,
            old(self).i() >= old(self).s().len() ==> r is None && final(self).i() == old(self).i() { unimplemented!() } }
#[verifier::external_body] pub fn __tds<'b, 'a>(m: &'b TMap<'a>) -> (r: TIt<'b, 'a>) ensures r.s() == m.vals(), r.i() == 0, m.vals().len() <= usize::MAX { unimplemented!() }
#[verifier::external_body] pub fn __dds<'b, 'a>(m: &'b DMap<'a>) -> (r: DIt<'b, 'a>) ensures r.s() == m.vals(), r.i() == 0, m.vals().len() <= usize::MAX { unimplemented!() }
//@item src=bluejay-core/src/definition/type_definition.rs name=TypeDefinitionReference subst="< 'a , T : TypeDefinition > ==> < 'b , 'a >;;& 'a T :: CustomScalarTypeDefinition ==> & 'b CustomScalarTypeDefinition < 'a >;;& 'a T :: ObjectTypeDefinition ==> & 'b ObjectTypeDefinition < 'a >;;& 'a T :: InputObjectTypeDefinition ==> & 'b InputObjectTypeDefinition < 'a >;;& 'a T :: EnumTypeDefinition ==> & 'b EnumTypeDefinition < 'a >;;& 'a T :: UnionTypeDefinition ==> & 'b UnionTypeDefinition < 'a >;;& 'a T :: InterfaceTypeDefinition ==> & 'b InterfaceTypeDefinition < 'a >"
pub open spec fn tdr<'b, 'a>(d: TypeDefinition<'a>, r: TypeDefinitionReference<'b, 'a>) -> bool { match d {
    TypeDefinition::BuiltinScalar(x) => r == TypeDefinitionReference::<'b, 'a>::BuiltinScalar(x), TypeDefinition::CustomScalar(x) => r is CustomScalar && *r->CustomScalar_0 == x, TypeDefinition::Object(x) => r is Object && *r->Object_0 == x,
    TypeDefinition::InputObject(x) => r is InputObject && *r->InputObject_0 == x, TypeDefinition::Enum(x) => r is Enum && *r->Enum_0 == x, TypeDefinition::Union(x) => r is Union && *r->Union_0 == x, TypeDefinition::Interface(x) => r is Interface && *r->Interface_0 == x } }
impl<'b, 'a> TypeDefinitionReference<'b, 'a> { pub open spec fn bi(self) -> bool { match self { TypeDefinitionReference::BuiltinScalar(_) => true, TypeDefinitionReference::Object(x) => x.is_builtin, TypeDefinitionReference::Enum(x) => x.is_builtin, _ => false } } }
//@fn src=bluejay-core/src/definition/type_definition.rs impl=TypeDefinitionReference fn=is_builtin header="impl<'b, 'a> TypeDefinitionReference<'b, 'a>" id=TypeDefinitionReference::is_builtin
    ensures r == self.bi()
//@end
//@fn src=bluejay-parser/src/ast/definition/type_definition.rs impl=CoreTypeDefinition:TypeDefinition fn=as_ref id=TypeDefinition::as_ref header="impl<'a> TypeDefinition<'a>"
    ensures tdr(*self, r)
//@ sig fn as_ref<'b>(&'b self) -> (r: TypeDefinitionReference<'b, 'a>)
//@end
//@item src=bluejay-parser/src/ast/definition/schema_definition.rs name=SchemaDefinition subst="BTreeMap < & 'a str , & 'a TypeDefinition < 'a , C > > ==> TMap < 'a >;;BTreeMap < & 'a str , & 'a DirectiveDefinition < 'a , C > > ==> DMap < 'a >;;HashMap < & 'a str , Vec < & 'a ObjectTypeDefinition < 'a , C > > > ==> ();;BTreeMap < & 'a str , & 'a TypeDefinition < 'a > > ==> TMap < 'a >;;BTreeMap < & 'a str , & 'a DirectiveDefinition < 'a > > ==> DMap < 'a >;;HashMap < & 'a str , Vec < & 'a ObjectTypeDefinition < 'a > > > ==> ();;Directives < 'a > ==> DDirectives < 'a >"
pub open spec fn sdesc<'a>(o: Option<&'a StringValue<'a>>) -> Option<StringValue<'a>> { match o { Some(s) => Some(*s), None => None } }
pub open spec fn sdirs<'a>(o: Option<&'a DDirectives<'a>>) -> Seq<GDir<'a>> { match o { Some(d) => dds_v(d.directives@), None => seq![] } }
pub open spec fn oname<'a>(o: Option<&'a ObjectTypeDefinition<'a>>) -> Option<Seq<char>> { match o { Some(x) => Some(x.name.value@), None => None } }
/// the schema is what a reader assumes of definitions without a schema definition
pub open spec fn implied<'a>(s: SchemaDefinition<'a>) -> bool {
    &&& s.description is None && s.query.name.value@ == "Query"@ && sdirs(s.directives).len() == 0
    &&& (match oname(s.mutation) { Some(n) => n == "Mutation"@, None => !s.type_definitions.keys().contains("Mutation"@) })
    &&& (match oname(s.subscription) { Some(n) => n == "Subscription"@, None => !s.type_definitions.keys().contains("Subscription"@) })
}
pub open spec fn p_schema_of<'a>(s: SchemaDefinition<'a>, k: Seq<KTok>) -> Seq<KTok> { p_schema(sdesc(s.description), sdirs(s.directives), s.query.name.value@, oname(s.mutation), oname(s.subscription), k) }
pub open spec fn p_oschema<'a>(s: SchemaDefinition<'a>, k: Seq<KTok>) -> Seq<KTok> { if implied(s) { k } else { p_schema_of(s, k) } }
pub open spec fn p_sdl<'a>(s: SchemaDefinition<'a>, k: Seq<KTok>) -> Seq<KTok> { p_dds(dirdefs_v(s.directive_definitions.vals()), p_tds(tds_v(s.type_definitions.vals()), p_oschema(s, k))) }
//@fn src=bluejay-parser/src/ast/definition/schema_definition.rs impl=CoreSchemaDefinition:SchemaDefinition fn=description id=SchemaDefinition::description header="impl<'a> SchemaDefinition<'a>"
    ensures r is Some == self.description is Some, r is Some ==> r->0@ == self.description->0.contents@
//@ sig fn description<'b>(&'b self) -> (r: Option<&'b str>)
//@ subst . map ( AsRef :: as_ref ) ==> . map ( | n | n . as_ref ( ) )
//@end
//@fn src=bluejay-parser/src/ast/definition/schema_definition.rs impl=CoreSchemaDefinition:SchemaDefinition fn=query id=SchemaDefinition::query header="impl<'a> SchemaDefinition<'a>"
    ensures r == self.query
//@ sig fn query<'b>(&'b self) -> (r: &'b ObjectTypeDefinition<'a>)
//@end
//@fn src=bluejay-parser/src/ast/definition/schema_definition.rs impl=CoreSchemaDefinition:SchemaDefinition fn=mutation id=SchemaDefinition::mutation header="impl<'a> SchemaDefinition<'a>"
    ensures r == self.mutation
//@ sig fn mutation<'b>(&'b self) -> (r: Option<&'b ObjectTypeDefinition<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/schema_definition.rs impl=CoreSchemaDefinition:SchemaDefinition fn=subscription id=SchemaDefinition::subscription header="impl<'a> SchemaDefinition<'a>"
    ensures r == self.subscription
//@ sig fn subscription<'b>(&'b self) -> (r: Option<&'b ObjectTypeDefinition<'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/schema_definition.rs impl=CoreSchemaDefinition:SchemaDefinition fn=get_type_definition id=SchemaDefinition::get_type_definition header="impl<'a> SchemaDefinition<'a>"
    ensures r is Some == self.type_definitions.keys().contains(name@)
//@ sig fn get_type_definition<'b>(&'b self, name: &str) -> (r: Option<TypeDefinitionReference<'b, 'a>>)
//@end
//@fn src=bluejay-parser/src/ast/definition/schema_definition.rs impl=CoreSchemaDefinition:SchemaDefinition fn=type_definitions id=SchemaDefinition::type_definitions header="impl<'a> SchemaDefinition<'a>"
    ensures r.s() == self.type_definitions.vals(), r.i() == 0, r.s().len() <= usize::MAX
//@ sig fn type_definitions<'b>(&'b self) -> (r: TIt<'b, 'a>)
//@ subst self . type_definitions . values ( ) . map ( | td : & & TypeDefinition < C > | -> TypeDefinitionReference < '_ , TypeDefinition < 'a , C > > { td . as_ref ( ) } , ) ==> __tds ( & self . type_definitions )
//@ subst self . type_definitions . values ( ) . map ( | td : & & TypeDefinition < C > | -> TypeDefinitionReference < '_ , TypeDefinition < 'a , C > > { td . as_ref ( ) } ) ==> __tds ( & self . type_definitions )
//@end
//@fn src=bluejay-parser/src/ast/definition/schema_definition.rs impl=CoreSchemaDefinition:SchemaDefinition fn=directive_definitions id=SchemaDefinition::directive_definitions header="impl<'a> SchemaDefinition<'a>"
    ensures r.s() == self.directive_definitions.vals(), r.i() == 0, r.s().len() <= usize::MAX
//@ sig fn directive_definitions<'b>(&'b self) -> (r: DIt<'b, 'a>)
//@ subst self . directive_definitions . values ( ) . copied ( ) ==> __dds ( & self . directive_definitions )
//@end
//@fn src=bluejay-parser/src/ast/definition/schema_definition.rs impl=HasDirectives:SchemaDefinition fn=directives id=SchemaDefinition::directives header="impl<'a> SchemaDefinition<'a>"
    ensures r == self.directives
//@ sig fn directives<'b>(&'b self) -> (r: Option<&'b DDirectives<'a>>)
//@end
//@item src=bluejay-printer/src/definition/schema_definition.rs name=SchemaDefinitionPrinter subst="< 'a , S : SchemaDefinition > ==> < 'b , 'a >;;& 'a S ==> & 'b SchemaDefinition < 'a >"
//@fn src=bluejay-printer/src/definition/schema_definition.rs impl=SchemaDefinitionPrinter fn=new id=SchemaDefinitionPrinter::new header="impl<'b, 'a> SchemaDefinitionPrinter<'b, 'a>"
    ensures *r.0 == *schema_definition
//@ sig fn new(schema_definition: &'b SchemaDefinition<'a>) -> (r: Self)
//@end
//@fn src=bluejay-printer/src/definition/schema_definition.rs impl=SchemaDefinitionPrinter fn=is_implicit id=SchemaDefinitionPrinter::is_implicit header="impl<'b, 'a> SchemaDefinitionPrinter<'b, 'a>"
    ensures r == implied(*schema_definition)
//@ sig fn is_implicit(schema_definition: &SchemaDefinition<'a>) -> (r: bool)
//@ subst . map ( AsIter :: is_empty ) ==> . map ( | n | n . is_empty ( ) )
//@end
//@fn src=bluejay-printer/src/definition/schema_definition.rs impl=SchemaDefinitionPrinter fn=fmt_explicit_schema_definition id=SchemaDefinitionPrinter::fmt_explicit_schema_definition header="impl<'b, 'a> SchemaDefinitionPrinter<'b, 'a>"
    requires old(f).last() is Other
    ensures r is Ok, final(f).last() is Other, forall|k: Seq<KTok>| #![trigger p_schema_of(*schema_definition, k)] old(f).out() + p_schema_of(*schema_definition, k) == final(f).out() + k
//@ sig fn fmt_explicit_schema_definition(schema_definition: &SchemaDefinition<'a>, f: &mut Formatter) -> (r: FmtResult)
//@ subst DirectivesPrinter :: new ==> DDirectivesPrinter :: new
//@ at start
    broadcast use print_lemmas, values_group, sdl_group, assoc, push_plus, empty_plus;
//@end
//@fn src=bluejay-printer/src/definition/schema_definition.rs impl=Display:SchemaDefinitionPrinter fn=fmt id=SchemaDefinitionPrinter::fmt header="impl<'b, 'a> SchemaDefinitionPrinter<'b, 'a>"
    requires old(f).last() is Other
    ensures r is Ok, final(f).last() is Other, forall|k: Seq<KTok>| #![trigger p_sdl(*self.0, k)] old(f).out() + p_sdl(*self.0, k) == final(f).out() + k
//@ sig fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
//@ at start
    hide(p_td); hide(p_dd); hide(p_schema_of); hide(implied);
    broadcast use print_lemmas, values_group, sdl_group, assoc, push_plus, empty_plus; let ghost f0 = f.out();
//@ loop 0
    invariant 0 <= $it.i() <= $it.s().len(), f.last() is Other, $ix <= $it.i(), $it.s().len() <= usize::MAX, $it.s() == self.0.directive_definitions.vals(),
        forall|k: Seq<KTok>| #![trigger p_sdl(*self.0, k)] f0 + p_sdl(*self.0, k) == f.out() + p_dds(dirdefs_v($it.s().skip($it.i())), p_tds(tds_v(self.0.type_definitions.vals()), p_oschema(*self.0, k)))
    ensures $it.i() == $it.s().len()
    decreases $it.s().len() - $it.i()
//@ at loop 0 end
    proof { p_dds_at($it.s(), $it.i() - 1); }
//@ loop 1
    invariant 0 <= $it.i() <= $it.s().len()
    decreases $it.s().len() - $it.i()
//@ loop 2
    invariant 0 <= $it.i() <= $it.s().len(), f.last() is Other, $ix <= $it.i(), $it.s().len() <= usize::MAX, $it.s() == self.0.type_definitions.vals(),
        forall|k: Seq<KTok>| #![trigger p_sdl(*self.0, k)] f0 + p_sdl(*self.0, k) == f.out() + p_tds(tds_v($it.s().skip($it.i())), p_oschema(*self.0, k))
    ensures $it.i() == $it.s().len()
    decreases $it.s().len() - $it.i()
//@ at loop 2 end
    proof { p_tds_at($it.s(), $it.i() - 1); }
//@ loop 3
    invariant 0 <= $it.i() <= $it.s().len()
    decreases $it.s().len() - $it.i()
//@end
//@fn src=bluejay-printer/src/definition/schema_definition.rs impl=SchemaDefinitionPrinter fn=to_string id=SchemaDefinitionPrinter::to_string header="impl<'b, 'a> SchemaDefinitionPrinter<'b, 'a>"
    ensures txt(r) == p_sdl(*schema_definition, seq![])
//@ sig fn to_string(schema_definition: &'b SchemaDefinition<'a>) -> (r: String)
//@ at start
    broadcast use print_lemmas, empty_plus, plus_empty;
//@end
pub broadcast proof fn plus_empty(k: Seq<KTok>) ensures #[trigger] (k + Seq::<KTok>::empty()) == k { assert(k + Seq::<KTok>::empty() =~= k); }
