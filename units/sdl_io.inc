// the two type references of definitions; the context parameter (a phantom) is erased
//@subst < 'a , C : Context + 'a > ==> < 'a >
//@subst < 'a , C : Context > ==> < 'a >
//@subst < 'a , C : Context = DefaultContext > ==> < 'a >
//@subst < 'a , C > ==> < 'a >
//@subst PhantomData < C > ==> ()
//@subst Default :: default ( ) ==> ( )
//@item src=bluejay-parser/src/ast/definition/input_type.rs name=BaseInputType
//@item src=bluejay-parser/src/ast/definition/input_type.rs name=InputType subst="Box < Self > ==> Box<InputType<'a>>"
//@item src=bluejay-parser/src/ast/definition/output_type.rs name=BaseOutputType
//@item src=bluejay-parser/src/ast/definition/output_type.rs name=OutputType subst="Box < Self > ==> Box<OutputType<'a>>"
