// ---- the grammar reads back what is printed -----------------------------------------------------------
// kt: a token without its position; e_*: a document without positions (and without the difference between `{ … }` and
// `query { … }`, which denote the same operation).
pub open spec fn kt<'a>(t: Tok<'a>) -> KTok { match t {
    LexicalToken::Punctuator(p) => KTok::P(p.type_), LexicalToken::Name(n) => KTok::Name(n.value@), LexicalToken::VariableName(n) => KTok::Var(n.value@),
    LexicalToken::IntValue(x) => KTok::Int(x.value), LexicalToken::FloatValue(x) => KTok::Float(x.value), LexicalToken::StringValue(x) => KTok::Str(x.contents@) } }
pub open spec fn ks<'a>(t: Seq<Tok<'a>>) -> Seq<KTok> { t.map_values(|x: Tok<'a>| kt(x)) }
pub proof fn peel<'a>(t: Seq<Tok<'a>>, x: KTok, k: Seq<KTok>) requires ks(t) == cons(x, k)
    ensures t.len() > 0, kt(t[0]) == x, ks(t.skip(1)) == k
{ assert(ks(t)[0] == x); assert(ks(t.skip(1)) =~= ks(t).skip(1)); assert(cons(x, k).skip(1) =~= k); }
pub open spec fn fst<'a, T>(r: R<'a, T>) -> T { (r->0).0 }
pub open spec fn rest<'a, T>(r: R<'a, T>) -> Seq<Tok<'a>> { (r->0).1 }
pub open spec fn starts(k: Seq<KTok>, p: PunctuatorType) -> bool { k.len() > 0 && k[0] == KTok::P(p) }
pub proof fn head<'a>(t: Seq<Tok<'a>>) ensures t.len() == ks(t).len(), t.len() > 0 ==> ks(t)[0] == kt(t[0]) { }

pub enum EVal { Var(Seq<char>), Int(i32), Float(f64), Str(Seq<char>), Bool(bool), Null, Enum(Seq<char>), List(Seq<EVal>), Obj(Seq<(Seq<char>, EVal)>) }
pub struct EArg { pub name: Seq<char>, pub value: EVal }
pub struct EDir { pub name: Seq<char>, pub args: Option<Seq<EArg>> }
pub enum EType { Named(Seq<char>, bool), List(Box<EType>, bool) }
pub open spec fn e_value<'a>(v: GValue<'a>) -> EVal decreases v { match v {
    GValue::Variable(x) => EVal::Var(x.value@), GValue::Integer(x) => EVal::Int(x.value), GValue::Float(x) => EVal::Float(x.value), GValue::String(x) => EVal::Str(x.contents@),
    GValue::Boolean(b) => EVal::Bool(b), GValue::Null => EVal::Null, GValue::Enum(n) => EVal::Enum(n.value@),
    GValue::List(l) => EVal::List(Seq::new(l.len(), |i: int| if 0 <= i < l.len() { e_value(l[i]) } else { arbitrary() })),
    GValue::Object(l) => EVal::Obj(Seq::new(l.len(), |i: int| if 0 <= i < l.len() { (l[i].0.value@, e_value(l[i].1)) } else { arbitrary() })) } }
pub open spec fn e_vals<'a>(s: Seq<GValue<'a>>) -> Seq<EVal> { s.map_values(|x: GValue<'a>| e_value(x)) }
pub open spec fn e_fields<'a>(s: Seq<(Name<'a>, GValue<'a>)>) -> Seq<(Seq<char>, EVal)> { s.map_values(|x: (Name<'a>, GValue<'a>)| (x.0.value@, e_value(x.1))) }
pub proof fn e_lists<'a>() ensures forall|l: Seq<GValue<'a>>| #[trigger] e_value(GValue::List(l)) == EVal::List(e_vals(l)), forall|l: Seq<(Name<'a>, GValue<'a>)>| #[trigger] e_value(GValue::Object(l)) == EVal::Obj(e_fields(l)) {
    assert forall|l: Seq<GValue<'a>>| #[trigger] e_value(GValue::List(l)) == EVal::List(e_vals(l)) by { assert(e_value(GValue::List(l))->List_0 =~= e_vals(l)); }
    assert forall|l: Seq<(Name<'a>, GValue<'a>)>| #[trigger] e_value(GValue::Object(l)) == EVal::Obj(e_fields(l)) by { assert(e_value(GValue::Object(l))->Obj_0 =~= e_fields(l)); }
}
pub open spec fn e_arg<'a>(x: GArg<'a>) -> EArg { EArg { name: x.name.value@, value: e_value(x.value) } }
pub open spec fn e_args<'a>(s: Seq<GArg<'a>>) -> Seq<EArg> { s.map_values(|x: GArg<'a>| e_arg(x)) }
pub open spec fn e_oargs<'a>(s: Option<Seq<GArg<'a>>>) -> Option<Seq<EArg>> { match s { None => None, Some(s) => Some(e_args(s)) } }
pub open spec fn e_dir<'a>(x: GDir<'a>) -> EDir { EDir { name: x.name.value@, args: e_oargs(x.args) } }
pub open spec fn e_dirs<'a>(s: Seq<GDir<'a>>) -> Seq<EDir> { s.map_values(|x: GDir<'a>| e_dir(x)) }
pub open spec fn e_type<'a>(t: GType<'a>) -> EType decreases t { match t { GType::Named(n, b) => EType::Named(n.value@, b), GType::List(i, b) => EType::List(Box::new(e_type(*i)), b) } }
pub open spec fn e_default<'a>(d: Option<GValue<'a>>) -> Option<EVal> { match d { None => None, Some(v) => Some(e_value(v)) } }
// growing an accumulator
pub proof fn acc_step<A, B>(f: spec_fn(A) -> B, acc: Seq<A>, y: A, s: Seq<A>)
    requires s.len() > 0, f(y) == f(s[0])
    ensures acc.push(y).map_values(f) + s.drop_first().map_values(f) == acc.map_values(f) + s.map_values(f)
{ assert(acc.push(y).map_values(f) + s.drop_first().map_values(f) =~= acc.map_values(f) + s.map_values(f)); }
pub proof fn acc_last<A, B>(f: spec_fn(A) -> B, acc: Seq<A>, y: A, s: Seq<A>)
    requires s.len() == 1, f(y) == f(s[0])
    ensures acc.push(y).map_values(f) == acc.map_values(f) + s.map_values(f)
{ assert(acc.push(y).map_values(f) =~= acc.map_values(f) + s.map_values(f)); }
pub proof fn acc_none<A, B>(f: spec_fn(A) -> B, acc: Seq<A>, s: Seq<A>)
    requires s.len() == 0 ensures acc.map_values(f) == acc.map_values(f) + s.map_values(f)
{ assert(acc.map_values(f) =~= acc.map_values(f) + s.map_values(f)); }
pub proof fn acc_empty<A, B>(f: spec_fn(A) -> B, s: Seq<A>) ensures Seq::<A>::empty().map_values(f) + s.map_values(f) == s.map_values(f)
{ assert(Seq::<A>::empty().map_values(f) + s.map_values(f) =~= s.map_values(f)); }

// what the grammar guarantees of a document it derives
pub open spec fn wf_value<'a>(v: GValue<'a>, c: bool) -> bool decreases v { match v {
    GValue::Enum(n) => n.value@ != "true"@ && n.value@ != "false"@ && n.value@ != "null"@, GValue::Variable(_) => !c,
    GValue::List(l) => wf_vals(l, c), GValue::Object(l) => wf_fields(l, c), _ => true } }
pub open spec fn wf_vals<'a>(s: Seq<GValue<'a>>, c: bool) -> bool decreases s { s.len() == 0 || (wf_value(s[0], c) && wf_vals(s.drop_first(), c)) }
pub open spec fn wf_fields<'a>(s: Seq<(Name<'a>, GValue<'a>)>, c: bool) -> bool decreases s { s.len() == 0 || (wf_value(s[0].1, c) && wf_fields(s.drop_first(), c)) }
pub open spec fn wf_args<'a>(s: Seq<GArg<'a>>, c: bool) -> bool { forall|i: int| 0 <= i < s.len() ==> wf_value((#[trigger] s[i]).value, c) }
pub open spec fn wf_oargs<'a>(s: Option<Seq<GArg<'a>>>, c: bool) -> bool { s is Some ==> s->0.len() > 0 && wf_args(s->0, c) }
pub open spec fn wf_dirs<'a>(s: Seq<GDir<'a>>, c: bool) -> bool { forall|i: int| 0 <= i < s.len() ==> wf_oargs((#[trigger] s[i]).args, c) }
pub proof fn wf_vals_push<'a>(s: Seq<GValue<'a>>, c: bool, x: GValue<'a>) requires wf_vals(s, c), wf_value(x, c) ensures wf_vals(s.push(x), c) decreases s.len() {
    if s.len() > 0 { wf_vals_push(s.drop_first(), c, x); assert(s.push(x).drop_first() =~= s.drop_first().push(x)); } else { assert(s.push(x).drop_first() =~= Seq::<GValue<'a>>::empty()); assert(wf_vals(Seq::<GValue<'a>>::empty(), c)); }
}
pub proof fn wf_fields_push<'a>(s: Seq<(Name<'a>, GValue<'a>)>, c: bool, x: (Name<'a>, GValue<'a>)) requires wf_fields(s, c), wf_value(x.1, c) ensures wf_fields(s.push(x), c) decreases s.len() {
    if s.len() > 0 { wf_fields_push(s.drop_first(), c, x); assert(s.push(x).drop_first() =~= s.drop_first().push(x)); } else { assert(s.push(x).drop_first() =~= Seq::<(Name<'a>, GValue<'a>)>::empty()); assert(wf_fields(Seq::<(Name<'a>, GValue<'a>)>::empty(), c)); }
}
pub proof fn w_value<'a>(t: Seq<Tok<'a>>, c: bool) requires g_value(t, c) is Some ensures wf_value(fst(g_value(t, c)), c) decreases t.len(), 1int {
    match t[0] { LexicalToken::Punctuator(p) => { if p.type_ == PunctuatorType::OpenSquareBracket { w_list(t.skip(1), c, seq![]); } else if p.type_ == PunctuatorType::OpenBrace { w_object(t.skip(1), c, seq![]); } } _ => {} }
}
pub proof fn w_list<'a>(t: Seq<Tok<'a>>, c: bool, acc: Seq<GValue<'a>>) requires g_list(t, c, acc) is Some, wf_vals(acc, c) ensures wf_vals(fst(g_list(t, c, acc)), c) decreases t.len(), 2int {
    if t_punct(t, PunctuatorType::CloseSquareBracket) is None { w_value(t, c); let r = g_value(t, c)->0; wf_vals_push(acc, c, r.0); w_list(r.1, c, acc.push(r.0)); }
}
pub proof fn w_object<'a>(t: Seq<Tok<'a>>, c: bool, acc: Seq<(Name<'a>, GValue<'a>)>) requires g_object(t, c, acc) is Some, wf_fields(acc, c) ensures wf_fields(fst(g_object(t, c, acc)), c) decreases t.len(), 2int {
    if t_punct(t, PunctuatorType::CloseBrace) is None {
        let n = t_name(t)->0; let t2 = rest(t_punct(n.1, PunctuatorType::Colon));
        w_value(t2, c); let r = g_value(t2, c)->0; wf_fields_push(acc, c, (n.0, r.0)); w_object(r.1, c, acc.push((n.0, r.0)));
    }
}
pub proof fn w_args_rest<'a>(t: Seq<Tok<'a>>, c: bool, acc: Seq<GArg<'a>>) requires g_args_rest(t, c, acc) is Some, wf_args(acc, c)
    ensures wf_args(fst(g_args_rest(t, c, acc)), c), fst(g_args_rest(t, c, acc)).len() > 0 decreases t.len() {
    let a = g_arg(t, c)->0; let t2 = rest(t_punct(rest(t_name(t)), PunctuatorType::Colon)); w_value(t2, c); assert(a.0.value == fst(g_value(t2, c)));
    assert(wf_args(acc.push(a.0), c));
    if t_punct(a.1, PunctuatorType::CloseRoundBracket) is None { w_args_rest(a.1, c, acc.push(a.0)); }
}
pub proof fn w_args<'a>(t: Seq<Tok<'a>>, c: bool) requires g_args(t, c) is Some ensures wf_args(fst(g_args(t, c)), c), fst(g_args(t, c)).len() > 0 { w_args_rest(rest(t_punct(t, PunctuatorType::OpenRoundBracket)), c, seq![]); }
pub proof fn w_dirs<'a>(t: Seq<Tok<'a>>, c: bool, acc: Seq<GDir<'a>>) requires g_dirs(t, c, acc) is Some, wf_dirs(acc, c) ensures wf_dirs(fst(g_dirs(t, c, acc)), c) decreases t.len() {
    if is_punct(t, 0, PunctuatorType::At) {
        let d = g_dir(t, c)->0; let t2 = rest(t_name(rest(t_punct(t, PunctuatorType::At))));
        if is_punct(t2, 0, PunctuatorType::OpenRoundBracket) { w_args(t2, c); }
        assert(wf_dirs(acc.push(d.0), c)); w_dirs(d.1, c, acc.push(d.0));
    }
}

// reading back
pub open spec fn read_value<'a>(t: Seq<Tok<'a>>, c: bool, v: GValue<'a>, k: Seq<KTok>) -> bool {
    g_value(t, c) is Some && e_value(fst(g_value(t, c))) == e_value(v) && ks(rest(g_value(t, c))) == k && rest(g_value(t, c)).len() < t.len()
}
pub proof fn r_value<'a>(t: Seq<Tok<'a>>, c: bool, v: GValue<'a>, k: Seq<KTok>) requires ks(t) == p_value(v, k), wf_value(v, c) ensures read_value(t, c, v, k) decreases t.len(), 1int {
    reveal_strlit("true"); reveal_strlit("false"); reveal_strlit("null");
    assert("true"@.len() == 4 && "false"@.len() == 5 && "true"@[0] == 't' && "null"@[0] == 'n' && "null"@.len() == 4);
    e_lists();
    match v {
        GValue::List(l) => { let k1 = p_vals(l, cons(KTok::P(PunctuatorType::CloseSquareBracket), k)); peel(t, KTok::P(PunctuatorType::OpenSquareBracket), k1); r_list(t.skip(1), c, seq![], l, k); assert(e_vals(seq![]) + e_vals(l) =~= e_vals(l)); }
        GValue::Object(l) => { let k1 = p_fields(l, cons(KTok::P(PunctuatorType::CloseBrace), k)); peel(t, KTok::P(PunctuatorType::OpenBrace), k1); r_object(t.skip(1), c, seq![], l, k); assert(e_fields(seq![]) + e_fields(l) =~= e_fields(l)); }
        GValue::Variable(x) => { peel(t, KTok::Var(x.value@), k); }
        GValue::Integer(x) => { peel(t, KTok::Int(x.value), k); }
        GValue::Float(x) => { peel(t, KTok::Float(x.value), k); }
        GValue::String(x) => { peel(t, KTok::Str(x.contents@), k); }
        GValue::Boolean(b) => { peel(t, KTok::Name(if b { "true"@ } else { "false"@ }), k); }
        GValue::Null => { peel(t, KTok::Name("null"@), k); }
        GValue::Enum(x) => { peel(t, KTok::Name(x.value@), k); }
    }
}
pub proof fn r_list<'a>(t: Seq<Tok<'a>>, c: bool, acc: Seq<GValue<'a>>, s: Seq<GValue<'a>>, k: Seq<KTok>)
    requires ks(t) == p_vals(s, cons(KTok::P(PunctuatorType::CloseSquareBracket), k)), wf_vals(s, c)
    ensures g_list(t, c, acc) is Some, e_vals(fst(g_list(t, c, acc))) == e_vals(acc) + e_vals(s), ks(rest(g_list(t, c, acc))) == k, rest(g_list(t, c, acc)).len() < t.len()
    decreases t.len(), 2int
{
    let kk = cons(KTok::P(PunctuatorType::CloseSquareBracket), k);
    if s.len() == 0 { peel(t, KTok::P(PunctuatorType::CloseSquareBracket), k); acc_none(|x: GValue<'a>| e_value(x), acc, s); }
    else {
        r_value(t, c, s[0], p_vals(s.drop_first(), kk)); head(t);
        let r = g_value(t, c)->0;
        acc_step(|x: GValue<'a>| e_value(x), acc, r.0, s);
        r_list(r.1, c, acc.push(r.0), s.drop_first(), k);
        assert(t_punct(t, PunctuatorType::CloseSquareBracket) is None);
    }
}
pub proof fn r_object<'a>(t: Seq<Tok<'a>>, c: bool, acc: Seq<(Name<'a>, GValue<'a>)>, s: Seq<(Name<'a>, GValue<'a>)>, k: Seq<KTok>)
    requires ks(t) == p_fields(s, cons(KTok::P(PunctuatorType::CloseBrace), k)), wf_fields(s, c)
    ensures g_object(t, c, acc) is Some, e_fields(fst(g_object(t, c, acc))) == e_fields(acc) + e_fields(s), ks(rest(g_object(t, c, acc))) == k, rest(g_object(t, c, acc)).len() < t.len()
    decreases t.len(), 2int
{
    let kk = cons(KTok::P(PunctuatorType::CloseBrace), k);
    if s.len() == 0 { peel(t, KTok::P(PunctuatorType::CloseBrace), k); acc_none(|x: (Name<'a>, GValue<'a>)| (x.0.value@, e_value(x.1)), acc, s); }
    else {
        let k3 = p_fields(s.drop_first(), kk);
        peel(t, KTok::Name(s[0].0.value@), cons(KTok::P(PunctuatorType::Colon), p_value(s[0].1, k3)));
        let t1 = t.skip(1); peel(t1, KTok::P(PunctuatorType::Colon), p_value(s[0].1, k3));
        let t2 = t1.skip(1); r_value(t2, c, s[0].1, k3);
        let r = g_value(t2, c)->0; let y = (fst(t_name(t)), r.0);
        acc_step(|x: (Name<'a>, GValue<'a>)| (x.0.value@, e_value(x.1)), acc, y, s);
        r_object(r.1, c, acc.push(y), s.drop_first(), k);
    }
}
pub proof fn r_arg<'a>(t: Seq<Tok<'a>>, c: bool, a: GArg<'a>, k: Seq<KTok>) requires ks(t) == p_arg(a, k), wf_value(a.value, c)
    ensures g_arg(t, c) is Some, e_arg(fst(g_arg(t, c))) == e_arg(a), ks(rest(g_arg(t, c))) == k, rest(g_arg(t, c)).len() < t.len()
{
    let k1 = cons(KTok::P(PunctuatorType::Colon), p_value(a.value, k));
    peel(t, KTok::Name(a.name.value@), k1); peel(t.skip(1), KTok::P(PunctuatorType::Colon), p_value(a.value, k)); r_value(t.skip(1).skip(1), c, a.value, k);
}
pub proof fn r_args_rest<'a>(t: Seq<Tok<'a>>, c: bool, acc: Seq<GArg<'a>>, s: Seq<GArg<'a>>, k: Seq<KTok>)
    requires ks(t) == p_args(s, cons(KTok::P(PunctuatorType::CloseRoundBracket), k)), wf_args(s, c), s.len() > 0
    ensures g_args_rest(t, c, acc) is Some, e_args(fst(g_args_rest(t, c, acc))) == e_args(acc) + e_args(s), ks(rest(g_args_rest(t, c, acc))) == k, rest(g_args_rest(t, c, acc)).len() < t.len()
    decreases t.len()
{
    let kk = cons(KTok::P(PunctuatorType::CloseRoundBracket), k); let s1 = s.drop_first();
    r_arg(t, c, s[0], p_args(s1, kk));
    let r = g_arg(t, c)->0;
    if s1.len() == 0 { peel(r.1, KTok::P(PunctuatorType::CloseRoundBracket), k); acc_last(|x: GArg<'a>| e_arg(x), acc, r.0, s); }
    else {
        acc_step(|x: GArg<'a>| e_arg(x), acc, r.0, s);
        assert forall|i: int| 0 <= i < s1.len() implies wf_value((#[trigger] s1[i]).value, c) by { assert(s1[i] == s[i + 1]); }
        r_args_rest(r.1, c, acc.push(r.0), s1, k);
        peel(r.1, KTok::Name(s1[0].name.value@), cons(KTok::P(PunctuatorType::Colon), p_value(s1[0].value, p_args(s1.drop_first(), kk))));
    }
}
pub proof fn r_args<'a>(t: Seq<Tok<'a>>, c: bool, s: Seq<GArg<'a>>, k: Seq<KTok>) requires ks(t) == p_arglist(s, k), wf_args(s, c), s.len() > 0
    ensures g_args(t, c) is Some, e_args(fst(g_args(t, c))) == e_args(s), ks(rest(g_args(t, c))) == k, rest(g_args(t, c)).len() < t.len(), is_punct(t, 0, PunctuatorType::OpenRoundBracket)
{
    peel(t, KTok::P(PunctuatorType::OpenRoundBracket), p_args(s, cons(KTok::P(PunctuatorType::CloseRoundBracket), k))); r_args_rest(t.skip(1), c, seq![], s, k); acc_empty(|x: GArg<'a>| e_arg(x), s);
}
pub proof fn r_dir<'a>(t: Seq<Tok<'a>>, c: bool, d: GDir<'a>, k: Seq<KTok>) requires ks(t) == p_dir(d, k), wf_oargs(d.args, c), !starts(k, PunctuatorType::OpenRoundBracket)
    ensures g_dir(t, c) is Some, e_dir(fst(g_dir(t, c))) == e_dir(d), ks(rest(g_dir(t, c))) == k, rest(g_dir(t, c)).len() < t.len(), is_punct(t, 0, PunctuatorType::At)
{
    let k2 = p_oargs(d.args, k); peel(t, KTok::P(PunctuatorType::At), p_name(d.name, k2)); peel(t.skip(1), KTok::Name(d.name.value@), k2);
    let t2 = t.skip(1).skip(1); head(t2); if d.args is Some { r_args(t2, c, d.args->0, k); }
}
pub proof fn r_dirs<'a>(t: Seq<Tok<'a>>, c: bool, acc: Seq<GDir<'a>>, s: Seq<GDir<'a>>, k: Seq<KTok>)
    requires ks(t) == p_dirs(s, k), wf_dirs(s, c), !starts(k, PunctuatorType::OpenRoundBracket), !starts(k, PunctuatorType::At)
    ensures g_dirs(t, c, acc) is Some, e_dirs(fst(g_dirs(t, c, acc))) == e_dirs(acc) + e_dirs(s), ks(rest(g_dirs(t, c, acc))) == k, rest(g_dirs(t, c, acc)).len() <= t.len()
    decreases s.len()
{
    head(t);
    if s.len() == 0 { acc_none(|x: GDir<'a>| e_dir(x), acc, s); }
    else {
        let s1 = s.drop_first(); let k1 = p_dirs(s1, k);
        if s1.len() > 0 { assert(k1 == p_dir(s1[0], p_dirs(s1.drop_first(), k))); assert(k1[0] == KTok::P(PunctuatorType::At)); }
        r_dir(t, c, s[0], k1);
        let r = g_dir(t, c)->0; acc_step(|x: GDir<'a>| e_dir(x), acc, r.0, s);
        assert forall|i: int| 0 <= i < s1.len() implies wf_oargs((#[trigger] s1[i]).args, c) by { assert(s1[i] == s[i + 1]); }
        r_dirs(r.1, c, acc.push(r.0), s1, k);
    }
}
/// the directives of a construct, read with an empty accumulator
pub proof fn r_dirs0<'a>(t: Seq<Tok<'a>>, c: bool, s: Seq<GDir<'a>>, k: Seq<KTok>)
    requires ks(t) == p_dirs(s, k), wf_dirs(s, c), !starts(k, PunctuatorType::OpenRoundBracket), !starts(k, PunctuatorType::At)
    ensures g_dirs(t, c, seq![]) is Some, e_dirs(fst(g_dirs(t, c, seq![]))) == e_dirs(s), ks(rest(g_dirs(t, c, seq![]))) == k, rest(g_dirs(t, c, seq![])).len() <= t.len()
{ r_dirs(t, c, seq![], s, k); acc_empty(|x: GDir<'a>| e_dir(x), s); }
/// what a printed list of directives starts with
pub proof fn dirs_head<'a>(s: Seq<GDir<'a>>, k: Seq<KTok>) ensures s.len() > 0 ==> starts(p_dirs(s, k), PunctuatorType::At), s.len() == 0 ==> p_dirs(s, k) == k { }
pub proof fn r_bang<'a>(t: Seq<Tok<'a>>, b: bool, k: Seq<KTok>) requires ks(t) == p_bang(b, k), !starts(k, PunctuatorType::Bang)
    ensures b ==> t_punct(t, PunctuatorType::Bang) is Some && ks(rest(t_punct(t, PunctuatorType::Bang))) == k && rest(t_punct(t, PunctuatorType::Bang)).len() < t.len(), !b ==> t_punct(t, PunctuatorType::Bang) is None
{ head(t); if b { peel(t, KTok::P(PunctuatorType::Bang), k); } }
pub proof fn r_type<'a>(t: Seq<Tok<'a>>, y: GType<'a>, k: Seq<KTok>) requires ks(t) == p_type(y, k), !starts(k, PunctuatorType::Bang)
    ensures g_type(t) is Some, e_type(fst(g_type(t))) == e_type(y), ks(rest(g_type(t))) == k, rest(g_type(t)).len() < t.len()
    decreases y
{
    match y {
        GType::Named(n, b) => { peel(t, KTok::Name(n.value@), p_bang(b, k)); r_bang(t.skip(1), b, k); }
        GType::List(i, b) => {
            let k2 = p_bang(b, k); let k1 = cons(KTok::P(PunctuatorType::CloseSquareBracket), k2);
            peel(t, KTok::P(PunctuatorType::OpenSquareBracket), p_type(*i, k1)); r_type(t.skip(1), *i, k1);
            let t2 = rest(g_type(t.skip(1))); peel(t2, KTok::P(PunctuatorType::CloseSquareBracket), k2); r_bang(t2.skip(1), b, k);
        }
    }
}
pub proof fn r_default<'a>(t: Seq<Tok<'a>>, d: Option<GValue<'a>>, k: Seq<KTok>) requires ks(t) == p_default(d, k), d is Some ==> wf_value(d->0, true), !starts(k, PunctuatorType::Equals)
    ensures g_default(t) is Some, e_default(fst(g_default(t))) == e_default(d), ks(rest(g_default(t))) == k, rest(g_default(t)).len() <= t.len()
{ head(t); if d is Some { peel(t, KTok::P(PunctuatorType::Equals), p_value(d->0, k)); r_value(t.skip(1), true, d->0, k); } }
