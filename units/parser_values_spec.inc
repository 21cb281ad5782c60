// ---- values, arguments, directives ------------------------------------------------------------------
//@item src=bluejay-parser/src/ast/value.rs name=Value
//@item src=bluejay-parser/src/ast/value.rs name=BooleanValue
//@item src=bluejay-parser/src/ast/value.rs name=ListValue
//@item src=bluejay-parser/src/ast/value.rs name=ObjectValue
//@item src=bluejay-parser/src/ast/argument.rs name=Argument
//@item src=bluejay-parser/src/ast/arguments.rs name=Arguments
//@item src=bluejay-parser/src/ast/directive.rs name=Directive
//@item src=bluejay-parser/src/ast/directives.rs name=Directives
//@item src=bluejay-parser/src/ast/value.rs name=ConstValue
//@item src=bluejay-parser/src/ast/arguments.rs name=VariableArguments
//@item src=bluejay-parser/src/ast/directives.rs name=VariableDirectives
//@item src=bluejay-parser/src/ast/directives.rs name=ConstDirectives
//@item src=bluejay-parser/src/ast/directive.rs name=ConstDirective

/// what a value denotes (source spans of composite values left out; tokens kept whole)
pub enum GValue<'a> {
    Variable(Variable<'a>), Integer(IntValue), Float(FloatValue), String(StringValue<'a>), Boolean(bool),
    Null, Enum(Name<'a>), List(Seq<GValue<'a>>), Object(Seq<(Name<'a>, GValue<'a>)>),
}
pub struct GArg<'a> { pub name: Name<'a>, pub value: GValue<'a> }
pub struct GDir<'a> { pub name: Name<'a>, pub args: Option<Seq<GArg<'a>>> }

impl<'a, const CONST: bool> Value<'a, CONST> {
    pub open spec fn v(self) -> GValue<'a> decreases self {
        match self {
            Value::Variable(x) => GValue::Variable(x),
            Value::Integer(x) => GValue::Integer(x),
            Value::Float(x) => GValue::Float(x),
            Value::String(x) => GValue::String(x),
            Value::Boolean(x) => GValue::Boolean(x.value),
            Value::Enum(x) => GValue::Enum(x),
            Value::Null(x) => GValue::Null,
            Value::List(l) => GValue::List(Seq::new(l.elements@.len(), |i: int| if 0 <= i < l.elements@.len() { l.elements@[i].v() } else { arbitrary() })),
            Value::Object(l) => GValue::Object(Seq::new(l.fields@.len(), |i: int| if 0 <= i < l.fields@.len() { (l.fields@[i].0, l.fields@[i].1.v()) } else { arbitrary() })),
        }
    }
}
pub open spec fn vals_v<'a, const C: bool>(s: Seq<Value<'a, C>>) -> Seq<GValue<'a>> { s.map_values(|x: Value<'a, C>| x.v()) }
pub open spec fn obj_v<'a, const C: bool>(s: Seq<(Name<'a>, Value<'a, C>)>) -> Seq<(Name<'a>, GValue<'a>)> { s.map_values(|x: (Name<'a>, Value<'a, C>)| (x.0, x.1.v())) }
pub open spec fn args_v<'a, const C: bool>(s: Seq<Argument<'a, C>>) -> Seq<GArg<'a>> { s.map_values(|x: Argument<'a, C>| x.v()) }
pub open spec fn dirs_v<'a, const C: bool>(s: Seq<Directive<'a, C>>) -> Seq<GDir<'a>> { s.map_values(|x: Directive<'a, C>| x.v()) }
impl<'a, const CONST: bool> Argument<'a, CONST> { pub open spec fn v(self) -> GArg<'a> { GArg { name: self.name, value: self.value.v() } } }
impl<'a, const CONST: bool> Arguments<'a, CONST> { pub open spec fn v(self) -> Seq<GArg<'a>> { args_v(self.arguments@) } }
impl<'a, const CONST: bool> Directive<'a, CONST> { pub open spec fn v(self) -> GDir<'a> { GDir { name: self.name, args: match self.arguments { Some(a) => Some(a.v()), None => None } } } }
impl<'a, const CONST: bool> Directives<'a, CONST> { pub open spec fn v(self) -> Seq<GDir<'a>> { dirs_v(self.directives@) } }
pub open spec fn odirs_v<'a, const C: bool>(o: Option<Directives<'a, C>>) -> Seq<GDir<'a>> { match o { Some(d) => d.v(), None => seq![] } }

pub broadcast proof fn lem_vals_push<'a, const C: bool>(s: Seq<Value<'a, C>>, x: Value<'a, C>) ensures #[trigger] vals_v(s.push(x)) == vals_v(s).push(x.v()) { assert(vals_v(s.push(x)) =~= vals_v(s).push(x.v())); }
pub broadcast proof fn lem_obj_push<'a, const C: bool>(s: Seq<(Name<'a>, Value<'a, C>)>, x: (Name<'a>, Value<'a, C>)) ensures #[trigger] obj_v(s.push(x)) == obj_v(s).push((x.0, x.1.v())) { assert(obj_v(s.push(x)) =~= obj_v(s).push((x.0, x.1.v()))); }
pub broadcast proof fn lem_args_push<'a, const C: bool>(s: Seq<Argument<'a, C>>, x: Argument<'a, C>) ensures #[trigger] args_v(s.push(x)) == args_v(s).push(x.v()) { assert(args_v(s.push(x)) =~= args_v(s).push(x.v())); }
pub broadcast proof fn lem_dirs_push<'a, const C: bool>(s: Seq<Directive<'a, C>>, x: Directive<'a, C>) ensures #[trigger] dirs_v(s.push(x)) == dirs_v(s).push(x.v()) { assert(dirs_v(s.push(x)) =~= dirs_v(s).push(x.v())); }
pub broadcast proof fn lem_vals_empty<'a, const C: bool>(s: Seq<Value<'a, C>>) requires s.len() == 0 ensures #[trigger] vals_v(s) == Seq::<GValue<'a>>::empty() { assert(vals_v(s) =~= Seq::<GValue<'a>>::empty()); }
pub broadcast proof fn lem_obj_empty<'a, const C: bool>(s: Seq<(Name<'a>, Value<'a, C>)>) requires s.len() == 0 ensures #[trigger] obj_v(s) == Seq::<(Name<'a>, GValue<'a>)>::empty() { assert(obj_v(s) =~= Seq::<(Name<'a>, GValue<'a>)>::empty()); }
pub broadcast proof fn lem_args_empty<'a, const C: bool>(s: Seq<Argument<'a, C>>) requires s.len() == 0 ensures #[trigger] args_v(s) == Seq::<GArg<'a>>::empty() { assert(args_v(s) =~= Seq::<GArg<'a>>::empty()); }
pub broadcast proof fn lem_dirs_empty<'a, const C: bool>(s: Seq<Directive<'a, C>>) requires s.len() == 0 ensures #[trigger] dirs_v(s) == Seq::<GDir<'a>>::empty() { assert(dirs_v(s) =~= Seq::<GDir<'a>>::empty()); }
pub broadcast proof fn lem_list_view<'a, const C: bool>(l: ListValue<'a, C>) ensures #[trigger] Value::<'a, C>::List(l).v() == GValue::List(vals_v(l.elements@)) {
    assert(Value::<'a, C>::List(l).v()->List_0 =~= vals_v(l.elements@));
}
pub broadcast proof fn lem_obj_view<'a, const C: bool>(l: ObjectValue<'a, C>) ensures #[trigger] Value::<'a, C>::Object(l).v() == GValue::Object(obj_v(l.fields@)) {
    assert(Value::<'a, C>::Object(l).v()->Object_0 =~= obj_v(l.fields@));
}
broadcast group values_group { lem_vals_push, lem_obj_push, lem_args_push, lem_dirs_push, lem_vals_empty, lem_obj_empty, lem_args_empty, lem_dirs_empty, lem_list_view, lem_obj_view }

// Grammar: Value, Argument, Arguments, Directive, Directives (October 2021, 2.9, 2.6, 2.12)
pub open spec fn g_value<'a>(t: Seq<Tok<'a>>, c: bool) -> R<'a, GValue<'a>> decreases t.len(), 1int {
    if t.len() == 0 { None } else {
        match t[0] {
            LexicalToken::IntValue(i) => Some((GValue::Integer(i), t.skip(1))),
            LexicalToken::FloatValue(i) => Some((GValue::Float(i), t.skip(1))),
            LexicalToken::StringValue(i) => Some((GValue::String(i), t.skip(1))),
            LexicalToken::Name(n) => Some((
                if n.value@ == "true"@ { GValue::Boolean(true) } else if n.value@ == "false"@ { GValue::Boolean(false) }
                else if n.value@ == "null"@ { GValue::Null } else { GValue::Enum(n) }, t.skip(1))),
            LexicalToken::VariableName(v) => if c { None } else { Some((GValue::Variable(v), t.skip(1))) },
            LexicalToken::Punctuator(p) =>
                if p.type_ == PunctuatorType::OpenSquareBracket {
                    match g_list(t.skip(1), c, seq![]) { Some((l, rest)) => Some((GValue::List(l), rest)), None => None }
                } else if p.type_ == PunctuatorType::OpenBrace {
                    match g_object(t.skip(1), c, seq![]) { Some((l, rest)) => Some((GValue::Object(l), rest)), None => None }
                } else { None },
        }
    }
}
pub open spec fn g_list<'a>(t: Seq<Tok<'a>>, c: bool, acc: Seq<GValue<'a>>) -> R<'a, Seq<GValue<'a>>> decreases t.len(), 2int {
    match t_punct(t, PunctuatorType::CloseSquareBracket) {
        Some((s, rest)) => Some((acc, rest)),
        None => match g_value(t, c) {
            Some((v, rest)) => if rest.len() < t.len() { g_list(rest, c, acc.push(v)) } else { None },
            None => None,
        }
    }
}
pub open spec fn g_object<'a>(t: Seq<Tok<'a>>, c: bool, acc: Seq<(Name<'a>, GValue<'a>)>) -> R<'a, Seq<(Name<'a>, GValue<'a>)>> decreases t.len(), 2int {
    match t_punct(t, PunctuatorType::CloseBrace) {
        Some((s, rest)) => Some((acc, rest)),
        None => match t_name(t) {
            None => None,
            Some((n, t1)) => match t_punct(t1, PunctuatorType::Colon) {
                None => None,
                Some((_, t2)) => if t2.len() < t.len() { match g_value(t2, c) {
                    Some((v, rest)) => if rest.len() < t.len() { g_object(rest, c, acc.push((n, v))) } else { None },
                    None => None,
                } } else { None },
            },
        }
    }
}
pub open spec fn g_arg<'a>(t: Seq<Tok<'a>>, c: bool) -> R<'a, GArg<'a>> {
    match t_name(t) { None => None, Some((name, t1)) => match t_punct(t1, PunctuatorType::Colon) { None => None,
        Some((_, t2)) => match g_value(t2, c) { None => None, Some((value, rest)) => Some((GArg { name, value }, rest)) } } }
}
pub open spec fn g_args<'a>(t: Seq<Tok<'a>>, c: bool) -> R<'a, Seq<GArg<'a>>> {
    match t_punct(t, PunctuatorType::OpenRoundBracket) { None => None, Some((_, t1)) => g_args_rest(t1, c, seq![]) }
}
pub open spec fn g_args_rest<'a>(t: Seq<Tok<'a>>, c: bool, acc: Seq<GArg<'a>>) -> R<'a, Seq<GArg<'a>>> decreases t.len() {
    match g_arg(t, c) {
        None => None,
        Some((a, t1)) => match t_punct(t1, PunctuatorType::CloseRoundBracket) {
            Some((_, t2)) => Some((acc.push(a), t2)),
            None => if t1.len() < t.len() { g_args_rest(t1, c, acc.push(a)) } else { None },
        }
    }
}
pub open spec fn g_dir<'a>(t: Seq<Tok<'a>>, c: bool) -> R<'a, GDir<'a>> {
    match t_punct(t, PunctuatorType::At) { None => None, Some((_, t1)) => match t_name(t1) { None => None, Some((name, t2)) =>
        if is_punct(t2, 0, PunctuatorType::OpenRoundBracket) {
            match g_args(t2, c) { None => None, Some((args, t3)) => Some((GDir { name, args: Some(args) }, t3)) }
        } else { Some((GDir { name, args: None }, t2)) } } }
}
/// zero or more directives; never fails on a non-directive, fails on a malformed directive
pub open spec fn g_dirs<'a>(t: Seq<Tok<'a>>, c: bool, acc: Seq<GDir<'a>>) -> R<'a, Seq<GDir<'a>>> decreases t.len() {
    if is_punct(t, 0, PunctuatorType::At) {
        match g_dir(t, c) { None => None, Some((d, t1)) => if t1.len() < t.len() { g_dirs(t1, c, acc.push(d)) } else { None } }
    } else { Some((acc, t)) }
}
// Type, DefaultValue
pub enum GType<'a> { Named(Name<'a>, bool), List(Box<GType<'a>>, bool) }
pub open spec fn g_type<'a>(t: Seq<Tok<'a>>) -> R<'a, GType<'a>> decreases t.len() {
    match t_punct(t, PunctuatorType::OpenSquareBracket) {
        Some((_, t1)) => if t1.len() < t.len() { match g_type(t1) { None => None, Some((inner, t2)) => match t_punct(t2, PunctuatorType::CloseSquareBracket) {
            None => None,
            Some((_, t3)) => match t_punct(t3, PunctuatorType::Bang) { Some((_, t4)) => Some((GType::List(Box::new(inner), true), t4)), None => Some((GType::List(Box::new(inner), false), t3)) } } } } else { None },
        None => match t_name(t) { None => None, Some((n, t1)) => match t_punct(t1, PunctuatorType::Bang) { Some((_, t2)) => Some((GType::Named(n, true), t2)), None => Some((GType::Named(n, false), t1)) } },
    }
}
pub open spec fn g_default<'a>(t: Seq<Tok<'a>>) -> R<'a, Option<GValue<'a>>> {
    match t_punct(t, PunctuatorType::Equals) { None => Some((None, t)), Some((_, t1)) => match g_value(t1, true) { None => None, Some((v, t2)) => Some((Some(v), t2)) } }
}

