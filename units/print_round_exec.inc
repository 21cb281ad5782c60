// ---- executable documents: erased views, what the grammar guarantees, reading back ------------------------
pub struct EVarDef { pub variable: Seq<char>, pub ty: EType, pub default_: Option<EVal>, pub dirs: Seq<EDir> }
#[allow(inconsistent_fields)]
pub enum ESel {
    Field { alias: Option<Seq<char>>, name: Seq<char>, args: Option<Seq<EArg>>, dirs: Seq<EDir>, sel: Option<Seq<ESel>> },
    Spread { name: Seq<char>, dirs: Seq<EDir> },
    Inline { tc: Option<Seq<char>>, dirs: Seq<EDir>, sel: Seq<ESel> },
}
pub struct EOp { pub op: CoreOperationType, pub name: Option<Seq<char>>, pub vars: Option<Seq<EVarDef>>, pub dirs: Seq<EDir>, pub sel: Seq<ESel> }
pub struct EFrag { pub name: Seq<char>, pub tc: Seq<char>, pub dirs: Seq<EDir>, pub sel: Seq<ESel> }
pub struct EDoc { pub ops: Seq<EOp>, pub frags: Seq<EFrag> }
pub open spec fn e_name<'a>(n: Name<'a>) -> Seq<char> { n.value@ }
pub open spec fn e_oname<'a>(n: Option<Name<'a>>) -> Option<Seq<char>> { match n { None => None, Some(n) => Some(n.value@) } }
pub open spec fn e_vd<'a>(d: GVarDef<'a>) -> EVarDef { EVarDef { variable: d.variable.value@, ty: e_type(d.ty), default_: e_default(d.default_), dirs: e_dirs(d.dirs) } }
pub open spec fn e_vds<'a>(s: Seq<GVarDef<'a>>) -> Seq<EVarDef> { s.map_values(|x: GVarDef<'a>| e_vd(x)) }
pub open spec fn e_ovars<'a>(s: Option<Seq<GVarDef<'a>>>) -> Option<Seq<EVarDef>> { match s { None => None, Some(s) => Some(e_vds(s)) } }
pub open spec fn e_sel<'a>(x: GSel<'a>) -> ESel decreases x { match x {
    GSel::Field { alias, name, args, dirs, sel } => ESel::Field { alias: e_oname(alias), name: name.value@, args: e_oargs(args), dirs: e_dirs(dirs), sel: match sel { None => None, Some(s) => Some(Seq::new(s.len(), |i: int| if 0 <= i < s.len() { e_sel(s[i]) } else { arbitrary() })) } },
    GSel::Spread { name, dirs } => ESel::Spread { name: name.value@, dirs: e_dirs(dirs) },
    GSel::Inline { tc, dirs, sel } => ESel::Inline { tc: e_oname(tc), dirs: e_dirs(dirs), sel: Seq::new(sel.len(), |i: int| if 0 <= i < sel.len() { e_sel(sel[i]) } else { arbitrary() }) },
} }
pub open spec fn e_sels<'a>(s: Seq<GSel<'a>>) -> Seq<ESel> { s.map_values(|x: GSel<'a>| e_sel(x)) }
pub open spec fn e_osels<'a>(s: Option<Seq<GSel<'a>>>) -> Option<Seq<ESel>> { match s { None => None, Some(s) => Some(e_sels(s)) } }
pub proof fn e_sel_cases<'a>(x: GSel<'a>) ensures e_sel(x) == (match x {
    GSel::Field { alias, name, args, dirs, sel } => ESel::Field { alias: e_oname(alias), name: name.value@, args: e_oargs(args), dirs: e_dirs(dirs), sel: e_osels(sel) },
    GSel::Spread { name, dirs } => ESel::Spread { name: name.value@, dirs: e_dirs(dirs) },
    GSel::Inline { tc, dirs, sel } => ESel::Inline { tc: e_oname(tc), dirs: e_dirs(dirs), sel: e_sels(sel) } })
{
    match x { GSel::Field { alias, name, args, dirs, sel } => { if sel is Some { assert(e_sel(x)->Field_sel->0 =~= e_sels(sel->0)); } } GSel::Inline { tc, dirs, sel } => { assert(e_sel(x)->Inline_sel =~= e_sels(sel)); } _ => {} }
}
pub open spec fn e_op<'a>(o: GOp<'a>) -> EOp { EOp { op: o.op, name: e_oname(o.name), vars: e_ovars(o.vars), dirs: e_dirs(o.dirs), sel: e_sels(o.sel) } }
pub open spec fn e_ops<'a>(s: Seq<GOp<'a>>) -> Seq<EOp> { s.map_values(|x: GOp<'a>| e_op(x)) }
pub open spec fn e_frag<'a>(o: GFrag<'a>) -> EFrag { EFrag { name: o.name.value@, tc: o.tc.value@, dirs: e_dirs(o.dirs), sel: e_sels(o.sel) } }
pub open spec fn e_frags<'a>(s: Seq<GFrag<'a>>) -> Seq<EFrag> { s.map_values(|x: GFrag<'a>| e_frag(x)) }
pub open spec fn e_doc<'a>(d: GDoc<'a>) -> EDoc { EDoc { ops: e_ops(d.ops), frags: e_frags(d.frags) } }

pub open spec fn wf_vd<'a>(d: GVarDef<'a>) -> bool { (d.default_ is Some ==> wf_value(d.default_->0, true)) && wf_dirs(d.dirs, true) }
pub open spec fn wf_vds<'a>(s: Seq<GVarDef<'a>>) -> bool { forall|i: int| 0 <= i < s.len() ==> wf_vd(#[trigger] s[i]) }
pub open spec fn wf_ovars<'a>(s: Option<Seq<GVarDef<'a>>>) -> bool { s is Some ==> s->0.len() > 0 && wf_vds(s->0) }
pub open spec fn wf_sel<'a>(x: GSel<'a>) -> bool decreases x { match x {
    GSel::Field { alias, name, args, dirs, sel } => wf_oargs(args, false) && wf_dirs(dirs, false) && (match sel { None => true, Some(s) => s.len() > 0 && wf_sels(s) }),
    GSel::Spread { name, dirs } => name.value@ != "on"@ && wf_dirs(dirs, false),
    GSel::Inline { tc, dirs, sel } => wf_dirs(dirs, false) && sel.len() > 0 && wf_sels(sel),
} }
pub open spec fn wf_sels<'a>(s: Seq<GSel<'a>>) -> bool decreases s { s.len() == 0 || (wf_sel(s[0]) && wf_sels(s.drop_first())) }
pub open spec fn wf_op<'a>(o: GOp<'a>) -> bool { wf_ovars(o.vars) && wf_dirs(o.dirs, false) && o.sel.len() > 0 && wf_sels(o.sel) }
pub open spec fn wf_frag<'a>(o: GFrag<'a>) -> bool { o.name.value@ != "on"@ && wf_dirs(o.dirs, false) && o.sel.len() > 0 && wf_sels(o.sel) }
pub open spec fn wf_ops<'a>(s: Seq<GOp<'a>>) -> bool { forall|i: int| 0 <= i < s.len() ==> wf_op(#[trigger] s[i]) }
pub open spec fn wf_frags<'a>(s: Seq<GFrag<'a>>) -> bool { forall|i: int| 0 <= i < s.len() ==> wf_frag(#[trigger] s[i]) }
pub open spec fn wf_doc<'a>(d: GDoc<'a>) -> bool { wf_ops(d.ops) && wf_frags(d.frags) }
pub proof fn wf_sels_push<'a>(s: Seq<GSel<'a>>, x: GSel<'a>) requires wf_sels(s), wf_sel(x) ensures wf_sels(s.push(x)) decreases s.len() {
    if s.len() > 0 { wf_sels_push(s.drop_first(), x); assert(s.push(x).drop_first() =~= s.drop_first().push(x)); } else { assert(s.push(x).drop_first() =~= Seq::<GSel<'a>>::empty()); assert(wf_sels(Seq::<GSel<'a>>::empty())); }
}
pub proof fn w_vardefs_rest<'a>(t: Seq<Tok<'a>>, acc: Seq<GVarDef<'a>>) requires g_vardefs_rest(t, acc) is Some, wf_vds(acc)
    ensures wf_vds(fst(g_vardefs_rest(t, acc))), fst(g_vardefs_rest(t, acc)).len() > 0 decreases t.len() {
    let a = g_vardef(t)->0; let t3 = rest(g_type(rest(t_punct(rest(t_var(t)), PunctuatorType::Colon))));
    if t_punct(t3, PunctuatorType::Equals) is Some { w_value(rest(t_punct(t3, PunctuatorType::Equals)), true); }
    w_dirs(rest(g_default(t3)), true, seq![]);
    assert(wf_vd(a.0)); assert(wf_vds(acc.push(a.0)));
    if t_punct(a.1, PunctuatorType::CloseRoundBracket) is None { w_vardefs_rest(a.1, acc.push(a.0)); }
}
pub proof fn w_oargs<'a>(t: Seq<Tok<'a>>) requires g_oargs(t) is Some ensures wf_oargs(fst(g_oargs(t)), false) { if is_punct(t, 0, PunctuatorType::OpenRoundBracket) { w_args(t, false); } }
pub proof fn w_sel<'a>(t: Seq<Tok<'a>>) requires g_sel(t) is Some ensures wf_sel(fst(g_sel(t))) decreases t.len(), 2int {
    if is_name(t, 0) {
        let t1 = rest(g_fieldname(t)); w_oargs(t1); let t2 = rest(g_oargs(t1)); w_dirs(t2, false, seq![]); let t3 = rest(g_dirs(t2, false, seq![]));
        if is_punct(t3, 0, PunctuatorType::OpenBrace) { w_selset(t3); }
    } else if is_name(t, 1) && !is_kw(t, 1, "on"@) { let t1 = rest(t_punct(t, PunctuatorType::Ellipse)); assert(t1[0] == t[1]); w_dirs(rest(t_name(t1)), false, seq![]); }
    else { let t2 = rest(g_otc(rest(t_punct(t, PunctuatorType::Ellipse)))); w_dirs(t2, false, seq![]); let t3 = rest(g_dirs(t2, false, seq![])); w_selset(t3); }
}
pub proof fn w_selset<'a>(t: Seq<Tok<'a>>) requires g_selset(t) is Some ensures wf_sels(fst(g_selset(t))), fst(g_selset(t)).len() > 0 decreases t.len(), 0int {
    assert(wf_sels(Seq::<GSel<'a>>::empty())); w_sels(rest(t_punct(t, PunctuatorType::OpenBrace)), seq![]);
}
pub proof fn w_sels<'a>(t: Seq<Tok<'a>>, acc: Seq<GSel<'a>>) requires g_sels(t, acc) is Some, wf_sels(acc) ensures wf_sels(fst(g_sels(t, acc))), fst(g_sels(t, acc)).len() > 0 decreases t.len(), 3int {
    w_sel(t); let a = g_sel(t)->0; wf_sels_push(acc, a.0);
    if t_punct(a.1, PunctuatorType::CloseBrace) is None { w_sels(a.1, acc.push(a.0)); }
}
pub proof fn w_op<'a>(t: Seq<Tok<'a>>) requires g_op(t) is Some ensures wf_op(fst(g_op(t))) {
    if is_op_kw(t) {
        let t2 = g_oname(t.skip(1)).1; if is_punct(t2, 0, PunctuatorType::OpenRoundBracket) { w_vardefs_rest(rest(t_punct(t2, PunctuatorType::OpenRoundBracket)), seq![]); }
        let t3 = rest(g_ovars(t2)); w_dirs(t3, false, seq![]); w_selset(rest(g_dirs(t3, false, seq![])));
    } else { w_selset(t); }
}
pub proof fn w_frag<'a>(t: Seq<Tok<'a>>) requires g_frag(t) is Some ensures wf_frag(fst(g_frag(t))) {
    let t3 = rest(g_tc(rest(t_name(rest(t_kw(t, "fragment"@)))))); w_dirs(t3, false, seq![]); w_selset(rest(g_dirs(t3, false, seq![])));
}
pub proof fn w_doc<'a>(t: Seq<Tok<'a>>, ops: Seq<GOp<'a>>, frags: Seq<GFrag<'a>>) requires g_doc(t, ops, frags) is Some, wf_ops(ops), wf_frags(frags) ensures wf_doc(g_doc(t, ops, frags)->0) decreases t.len() {
    if t.len() > 0 { if is_op(t) { w_op(t); let a = g_op(t)->0; assert(wf_ops(ops.push(a.0))); w_doc(a.1, ops.push(a.0), frags); }
        else { w_frag(t); let a = g_frag(t)->0; assert(wf_frags(frags.push(a.0))); w_doc(a.1, ops, frags.push(a.0)); } }
}

pub proof fn r_vardef<'a>(t: Seq<Tok<'a>>, d: GVarDef<'a>, k: Seq<KTok>)
    requires ks(t) == p_vardef(d, k), wf_vd(d), k.len() > 0, k[0] is Var || k[0] == KTok::P(PunctuatorType::CloseRoundBracket)
    ensures g_vardef(t) is Some, e_vd(fst(g_vardef(t))) == e_vd(d), ks(rest(g_vardef(t))) == k, rest(g_vardef(t)).len() < t.len()
{
    let k4 = p_dirs(d.dirs, k); let k3 = p_default(d.default_, k4); let k2 = p_type(d.ty, k3);
    dirs_head(d.dirs, k);
    peel(t, KTok::Var(d.variable.value@), cons(KTok::P(PunctuatorType::Colon), k2)); peel(t.skip(1), KTok::P(PunctuatorType::Colon), k2);
    let t2 = t.skip(1).skip(1); assert(d.default_ is Some ==> k3[0] == KTok::P(PunctuatorType::Equals)); r_type(t2, d.ty, k3);
    let t3 = rest(g_type(t2)); r_default(t3, d.default_, k4); let t4 = rest(g_default(t3)); r_dirs0(t4, true, d.dirs, k);
}
pub proof fn r_vardefs_rest<'a>(t: Seq<Tok<'a>>, acc: Seq<GVarDef<'a>>, s: Seq<GVarDef<'a>>, k: Seq<KTok>)
    requires ks(t) == p_vds(s, cons(KTok::P(PunctuatorType::CloseRoundBracket), k)), wf_vds(s), s.len() > 0
    ensures g_vardefs_rest(t, acc) is Some, e_vds(fst(g_vardefs_rest(t, acc))) == e_vds(acc) + e_vds(s), ks(rest(g_vardefs_rest(t, acc))) == k, rest(g_vardefs_rest(t, acc)).len() < t.len()
    decreases t.len()
{
    let kk = cons(KTok::P(PunctuatorType::CloseRoundBracket), k); let s1 = s.drop_first(); let k1 = p_vds(s1, kk);
    if s1.len() > 0 { assert(k1 == p_vardef(s1[0], p_vds(s1.drop_first(), kk))); assert(k1[0] == KTok::Var(s1[0].variable.value@)); } else { assert(k1 == kk); assert(kk[0] == KTok::P(PunctuatorType::CloseRoundBracket)); }
    r_vardef(t, s[0], k1);
    let r = g_vardef(t)->0; head(r.1);
    if s1.len() == 0 { peel(r.1, KTok::P(PunctuatorType::CloseRoundBracket), k); acc_last(|x: GVarDef<'a>| e_vd(x), acc, r.0, s); }
    else {
        acc_step(|x: GVarDef<'a>| e_vd(x), acc, r.0, s);
        assert forall|i: int| 0 <= i < s1.len() implies wf_vd(#[trigger] s1[i]) by { assert(s1[i] == s[i + 1]); }
        r_vardefs_rest(r.1, acc.push(r.0), s1, k);
    }
}
pub proof fn r_ovars<'a>(t: Seq<Tok<'a>>, s: Option<Seq<GVarDef<'a>>>, k: Seq<KTok>) requires ks(t) == p_ovars(s, k), wf_ovars(s), !starts(k, PunctuatorType::OpenRoundBracket)
    ensures g_ovars(t) is Some, e_ovars(fst(g_ovars(t))) == e_ovars(s), ks(rest(g_ovars(t))) == k, rest(g_ovars(t)).len() <= t.len()
{ head(t); if s is Some { peel(t, KTok::P(PunctuatorType::OpenRoundBracket), p_vds(s->0, cons(KTok::P(PunctuatorType::CloseRoundBracket), k))); r_vardefs_rest(t.skip(1), seq![], s->0, k); acc_empty(|x: GVarDef<'a>| e_vd(x), s->0); } }
pub proof fn r_oargs<'a>(t: Seq<Tok<'a>>, s: Option<Seq<GArg<'a>>>, k: Seq<KTok>) requires ks(t) == p_oargs(s, k), wf_oargs(s, false), !starts(k, PunctuatorType::OpenRoundBracket)
    ensures g_oargs(t) is Some, e_oargs(fst(g_oargs(t))) == e_oargs(s), ks(rest(g_oargs(t))) == k, rest(g_oargs(t)).len() <= t.len()
{ head(t); if s is Some { r_args(t, false, s->0, k); } }
/// what may follow a selection
pub open spec fn follows_sel(k: Seq<KTok>) -> bool { k.len() > 0 && (k[0] is Name || k[0] == KTok::P(PunctuatorType::Ellipse) || k[0] == KTok::P(PunctuatorType::CloseBrace)) }
pub proof fn sels_head<'a>(s: Seq<GSel<'a>>, k: Seq<KTok>) ensures
    s.len() > 0 ==> p_sels(s, k).len() > 0 && (p_sels(s, k)[0] is Name || p_sels(s, k)[0] == KTok::P(PunctuatorType::Ellipse)), s.len() == 0 ==> p_sels(s, k) == k
{ if s.len() > 0 { let k1 = p_sels(s.drop_first(), k); p_sel_cases(s[0]); assert(p_sels(s, k) == p_sel(s[0], k1)); } }
pub proof fn oargs_head<'a>(s: Option<Seq<GArg<'a>>>, k: Seq<KTok>) requires wf_oargs(s, false) ensures s is Some ==> starts(p_oargs(s, k), PunctuatorType::OpenRoundBracket), s is None ==> p_oargs(s, k) == k { }
pub proof fn r_field<'a>(t: Seq<Tok<'a>>, x: GSel<'a>, k: Seq<KTok>) requires ks(t) == p_sel(x, k), wf_sel(x), follows_sel(k), x is Field
    ensures g_field(t) is Some, e_sel(fst(g_field(t))) == e_sel(x), ks(rest(g_field(t))) == k, rest(g_field(t)).len() < t.len(), is_name(t, 0)
    decreases t.len(), 1int
{
    p_sel_cases(x); e_sel_cases(x);
    match x { GSel::Field { alias, name, args, dirs, sel } => {
        let k3 = p_oselset(sel, k); let k2 = p_dirs(dirs, k3); let k1 = p_oargs(args, k2);
        if sel is Some { assert(k3[0] == KTok::P(PunctuatorType::OpenBrace)); }
        dirs_head(dirs, k3); oargs_head(args, k2);
        assert(!starts(k1, PunctuatorType::Colon));
        if alias is Some { let kc = cons(KTok::P(PunctuatorType::Colon), p_name(name, k1)); peel(t, KTok::Name(alias->0.value@), kc); peel(t.skip(1), KTok::P(PunctuatorType::Colon), p_name(name, k1)); peel(t.skip(1).skip(1), KTok::Name(name.value@), k1); }
        else { peel(t, KTok::Name(name.value@), k1); head(t.skip(1)); }
        let fnm = g_fieldname(t)->0; let t1 = fnm.1; assert(ks(t1) == k1); assert(e_oname(fnm.0.0) == e_oname(alias)); assert(fnm.0.1.value@ == name.value@);
        r_oargs(t1, args, k2); let t2 = rest(g_oargs(t1)); r_dirs0(t2, false, dirs, k3); let t3 = rest(g_dirs(t2, false, seq![])); head(t3);
        if sel is Some { r_selset(t3, sel->0, k); }
        e_sel_cases(fst(g_field(t)));
    } _ => {} }
}
pub proof fn r_sel<'a>(t: Seq<Tok<'a>>, x: GSel<'a>, k: Seq<KTok>) requires ks(t) == p_sel(x, k), wf_sel(x), follows_sel(k)
    ensures g_sel(t) is Some, e_sel(fst(g_sel(t))) == e_sel(x), ks(rest(g_sel(t))) == k, rest(g_sel(t)).len() < t.len()
    decreases t.len(), 2int
{
    p_sel_cases(x); e_sel_cases(x);
    match x {
        GSel::Field { .. } => { r_field(t, x, k); }
        GSel::Spread { name, dirs } => {
            let k2 = p_dirs(dirs, k); peel(t, KTok::P(PunctuatorType::Ellipse), p_name(name, k2)); let t1 = t.skip(1); peel(t1, KTok::Name(name.value@), k2); assert(t1[0] == t[1]);
            let t2 = t1.skip(1); r_dirs0(t2, false, dirs, k); e_sel_cases(fst(g_sel(t)));
        }
        GSel::Inline { tc, dirs, sel } => {
            let k3 = p_selset(sel, k); let k2 = p_dirs(dirs, k3); let k1 = p_otc(tc, k2);
            dirs_head(dirs, k3);
            peel(t, KTok::P(PunctuatorType::Ellipse), k1); let t1 = t.skip(1); head(t1); assert(t1.len() > 0); assert(t1[0] == t[1]);
            if tc is Some { peel(t1, KTok::Name("on"@), p_name(tc->0, k2)); peel(t1.skip(1), KTok::Name(tc->0.value@), k2); }
            let t2 = rest(g_otc(t1)); assert(ks(t2) == k2);
            r_dirs0(t2, false, dirs, k3); let t3 = rest(g_dirs(t2, false, seq![])); r_selset(t3, sel, k); e_sel_cases(fst(g_sel(t)));
        }
    }
}
pub proof fn r_selset<'a>(t: Seq<Tok<'a>>, s: Seq<GSel<'a>>, k: Seq<KTok>) requires ks(t) == p_selset(s, k), wf_sels(s), s.len() > 0
    ensures g_selset(t) is Some, e_sels(fst(g_selset(t))) == e_sels(s), ks(rest(g_selset(t))) == k, rest(g_selset(t)).len() < t.len(), is_punct(t, 0, PunctuatorType::OpenBrace)
    decreases t.len(), 0int
{ peel(t, KTok::P(PunctuatorType::OpenBrace), p_sels(s, cons(KTok::P(PunctuatorType::CloseBrace), k))); r_sels(t.skip(1), seq![], s, k); acc_empty(|x: GSel<'a>| e_sel(x), s); }
pub proof fn r_sels<'a>(t: Seq<Tok<'a>>, acc: Seq<GSel<'a>>, s: Seq<GSel<'a>>, k: Seq<KTok>)
    requires ks(t) == p_sels(s, cons(KTok::P(PunctuatorType::CloseBrace), k)), wf_sels(s), s.len() > 0
    ensures g_sels(t, acc) is Some, e_sels(fst(g_sels(t, acc))) == e_sels(acc) + e_sels(s), ks(rest(g_sels(t, acc))) == k, rest(g_sels(t, acc)).len() < t.len()
    decreases t.len(), 3int
{
    let kk = cons(KTok::P(PunctuatorType::CloseBrace), k); let s1 = s.drop_first(); let k1 = p_sels(s1, kk);
    sels_head(s1, kk); assert(kk[0] == KTok::P(PunctuatorType::CloseBrace));
    r_sel(t, s[0], k1);
    let r = g_sel(t)->0; head(r.1);
    if s1.len() == 0 { peel(r.1, KTok::P(PunctuatorType::CloseBrace), k); acc_last(|x: GSel<'a>| e_sel(x), acc, r.0, s); }
    else { acc_step(|x: GSel<'a>| e_sel(x), acc, r.0, s); r_sels(r.1, acc.push(r.0), s1, k); }
}
pub proof fn kw_facts() ensures "query"@ != "mutation"@, "query"@ != "subscription"@, "mutation"@ != "subscription"@, "fragment"@ != "query"@, "fragment"@ != "mutation"@, "fragment"@ != "subscription"@ {
    reveal_strlit("query"); reveal_strlit("mutation"); reveal_strlit("subscription"); reveal_strlit("fragment");
    assert("query"@.len() == 5 && "mutation"@.len() == 8 && "subscription"@.len() == 12 && "fragment"@.len() == 8 && "fragment"@[0] == 'f' && "mutation"@[0] == 'm');
}
pub proof fn r_op<'a>(t: Seq<Tok<'a>>, o: GOp<'a>, k: Seq<KTok>) requires ks(t) == p_op(o, k), wf_op(o)
    ensures g_op(t) is Some, e_op(fst(g_op(t))) == e_op(o), ks(rest(g_op(t))) == k, rest(g_op(t)).len() < t.len(), is_op(t)
{
    kw_facts();
    let k4 = p_selset(o.sel, k); let k3 = p_dirs(o.dirs, k4); let k2 = p_ovars(o.vars, k3); let k1 = p_oname(o.name, k2);
    dirs_head(o.dirs, k4);
    if o.vars is Some { assert(k2[0] == KTok::P(PunctuatorType::OpenRoundBracket)); }
    peel(t, KTok::Name(opt_kw(o.op)), k1); let t1 = t.skip(1); head(t1);
    if o.name is Some { peel(t1, KTok::Name(o.name->0.value@), k2); }
    let t2 = g_oname(t1).1; assert(ks(t2) == k2);
    r_ovars(t2, o.vars, k3); let t3 = rest(g_ovars(t2)); r_dirs0(t3, false, o.dirs, k4); let t4 = rest(g_dirs(t3, false, seq![])); r_selset(t4, o.sel, k);
}
pub proof fn r_frag<'a>(t: Seq<Tok<'a>>, o: GFrag<'a>, k: Seq<KTok>) requires ks(t) == p_frag(o, k), wf_frag(o)
    ensures g_frag(t) is Some, e_frag(fst(g_frag(t))) == e_frag(o), ks(rest(g_frag(t))) == k, rest(g_frag(t)).len() < t.len(), !is_op(t), is_kw(t, 0, "fragment"@)
{
    kw_facts();
    let k4 = p_selset(o.sel, k); let k3 = p_dirs(o.dirs, k4); let k2 = p_tc(o.tc, k3); let k1 = p_name(o.name, k2);
    peel(t, KTok::Name("fragment"@), k1); let t1 = t.skip(1); peel(t1, KTok::Name(o.name.value@), k2); let t2 = t1.skip(1);
    peel(t2, KTok::Name("on"@), p_name(o.tc, k3)); peel(t2.skip(1), KTok::Name(o.tc.value@), k3); let t3 = t2.skip(1).skip(1);
    r_dirs0(t3, false, o.dirs, k4); let t4 = rest(g_dirs(t3, false, seq![])); r_selset(t4, o.sel, k);
}
pub proof fn r_doc<'a>(t: Seq<Tok<'a>>, ao: Seq<GOp<'a>>, af: Seq<GFrag<'a>>, ops: Seq<GOp<'a>>, frags: Seq<GFrag<'a>>)
    requires ks(t) == p_ops(ops, p_frags(frags, seq![])), wf_ops(ops), wf_frags(frags)
    ensures g_doc(t, ao, af) is Some, e_ops(g_doc(t, ao, af)->0.ops) == e_ops(ao) + e_ops(ops), e_frags(g_doc(t, ao, af)->0.frags) == e_frags(af) + e_frags(frags)
    decreases t.len()
{
    head(t);
    if ops.len() > 0 {
        let s1 = ops.drop_first(); r_op(t, ops[0], p_ops(s1, p_frags(frags, seq![]))); let r = g_op(t)->0;
        acc_step(|x: GOp<'a>| e_op(x), ao, r.0, ops);
        assert forall|i: int| 0 <= i < s1.len() implies wf_op(#[trigger] s1[i]) by { assert(s1[i] == ops[i + 1]); }
        r_doc(r.1, ao.push(r.0), af, s1, frags);
    } else {
        acc_none(|x: GOp<'a>| e_op(x), ao, ops);
        if frags.len() > 0 {
            let s1 = frags.drop_first(); r_frag(t, frags[0], p_frags(s1, seq![])); let r = g_frag(t)->0;
            acc_step(|x: GFrag<'a>| e_frag(x), af, r.0, frags);
            assert forall|i: int| 0 <= i < s1.len() implies wf_frag(#[trigger] s1[i]) by { assert(s1[i] == frags[i + 1]); }
            r_doc(r.1, ao, af.push(r.0), ops, s1);
        } else { acc_none(|x: GFrag<'a>| e_frag(x), af, frags); }
    }
}
/// P04: if the tokens t are a document d, then any tokens u that read as what the printer writes for d are a document too, the
/// same one: same definitions, names, aliases, arguments, values, variables, defaults, directives and selections, in the same order.
pub proof fn round_trip<'a>(t: Seq<Tok<'a>>, d: GDoc<'a>, u: Seq<Tok<'a>>)
    requires g_doc(t, seq![], seq![]) == Some(d), ks(u) == p_doc(d, seq![])
    ensures g_doc(u, seq![], seq![]) is Some, e_doc(g_doc(u, seq![], seq![])->0) == e_doc(d)
{
    w_doc(t, seq![], seq![]); r_doc(u, seq![], seq![], d.ops, d.frags);
    acc_empty(|x: GOp<'a>| e_op(x), d.ops); acc_empty(|x: GFrag<'a>| e_frag(x), d.frags);
}
