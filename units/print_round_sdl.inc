// ---- type system documents: erased views, what the grammar guarantees, reading back ------------------------
pub struct EIv { pub desc: Option<Seq<char>>, pub name: Seq<char>, pub ty: EType, pub default_: Option<EVal>, pub dirs: Seq<EDir> }
pub struct EFd { pub desc: Option<Seq<char>>, pub name: Seq<char>, pub args: Option<Seq<EIv>>, pub ty: EType, pub dirs: Seq<EDir> }
pub struct EEv { pub desc: Option<Seq<char>>, pub name: Seq<char>, pub dirs: Seq<EDir> }
#[allow(inconsistent_fields)]
pub enum ETd {
    Scalar { desc: Option<Seq<char>>, name: Seq<char>, dirs: Seq<EDir> },
    Object { desc: Option<Seq<char>>, name: Seq<char>, ifs: Option<Seq<Seq<char>>>, dirs: Seq<EDir>, fields: Seq<EFd> },
    Interface { desc: Option<Seq<char>>, name: Seq<char>, ifs: Option<Seq<Seq<char>>>, dirs: Seq<EDir>, fields: Seq<EFd> },
    Input { desc: Option<Seq<char>>, name: Seq<char>, dirs: Seq<EDir>, fields: Seq<EIv> },
    Enum { desc: Option<Seq<char>>, name: Seq<char>, dirs: Seq<EDir>, values: Seq<EEv> },
    Union { desc: Option<Seq<char>>, name: Seq<char>, dirs: Seq<EDir>, members: Seq<Seq<char>> },
}
pub struct ESchema { pub desc: Option<Seq<char>>, pub dirs: Seq<EDir>, pub roots: Seq<(CoreOperationType, Seq<char>)> }
pub struct EDd { pub desc: Option<Seq<char>>, pub name: Seq<char>, pub args: Option<Seq<EIv>>, pub repeatable: bool, pub locs: Seq<CoreDirectiveLocation> }
pub open spec fn e_desc<'a>(d: Option<StringValue<'a>>) -> Option<Seq<char>> { match d { None => None, Some(s) => Some(s.contents@) } }
pub open spec fn e_iv<'a>(v: GIv<'a>) -> EIv { EIv { desc: e_desc(v.desc), name: v.name.value@, ty: e_type(v.ty), default_: e_default(v.default_), dirs: e_dirs(v.dirs) } }
pub open spec fn e_ivs<'a>(s: Seq<GIv<'a>>) -> Seq<EIv> { s.map_values(|x: GIv<'a>| e_iv(x)) }
pub open spec fn e_oargsdef<'a>(s: Option<Seq<GIv<'a>>>) -> Option<Seq<EIv>> { match s { None => None, Some(s) => Some(e_ivs(s)) } }
pub open spec fn e_fd<'a>(v: GFd<'a>) -> EFd { EFd { desc: e_desc(v.desc), name: v.name.value@, args: e_oargsdef(v.args), ty: e_type(v.ty), dirs: e_dirs(v.dirs) } }
pub open spec fn e_fds<'a>(s: Seq<GFd<'a>>) -> Seq<EFd> { s.map_values(|x: GFd<'a>| e_fd(x)) }
pub open spec fn e_ev<'a>(v: GEv<'a>) -> EEv { EEv { desc: e_desc(v.desc), name: v.name.value@, dirs: e_dirs(v.dirs) } }
pub open spec fn e_evs<'a>(s: Seq<GEv<'a>>) -> Seq<EEv> { s.map_values(|x: GEv<'a>| e_ev(x)) }
pub open spec fn e_names<'a>(s: Seq<Name<'a>>) -> Seq<Seq<char>> { s.map_values(|x: Name<'a>| x.value@) }
pub open spec fn e_oifs<'a>(s: Option<Seq<Name<'a>>>) -> Option<Seq<Seq<char>>> { match s { None => None, Some(s) => Some(e_names(s)) } }
pub open spec fn e_td<'a>(d: GTd<'a>) -> ETd { match d {
    GTd::Scalar { desc, name, dirs } => ETd::Scalar { desc: e_desc(desc), name: name.value@, dirs: e_dirs(dirs) },
    GTd::Object { desc, name, ifs, dirs, fields } => ETd::Object { desc: e_desc(desc), name: name.value@, ifs: e_oifs(ifs), dirs: e_dirs(dirs), fields: e_fds(fields) },
    GTd::Interface { desc, name, ifs, dirs, fields } => ETd::Interface { desc: e_desc(desc), name: name.value@, ifs: e_oifs(ifs), dirs: e_dirs(dirs), fields: e_fds(fields) },
    GTd::Input { desc, name, dirs, fields } => ETd::Input { desc: e_desc(desc), name: name.value@, dirs: e_dirs(dirs), fields: e_ivs(fields) },
    GTd::Enum { desc, name, dirs, values } => ETd::Enum { desc: e_desc(desc), name: name.value@, dirs: e_dirs(dirs), values: e_evs(values) },
    GTd::Union { desc, name, dirs, members } => ETd::Union { desc: e_desc(desc), name: name.value@, dirs: e_dirs(dirs), members: e_names(members) },
} }
pub open spec fn e_tds<'a>(s: Seq<GTd<'a>>) -> Seq<ETd> { s.map_values(|x: GTd<'a>| e_td(x)) }
pub open spec fn e_dd<'a>(d: GDd<'a>) -> EDd { EDd { desc: e_desc(d.desc), name: d.name.value@, args: e_oargsdef(d.args), repeatable: d.repeatable, locs: d.locs } }
pub open spec fn e_dds<'a>(s: Seq<GDd<'a>>) -> Seq<EDd> { s.map_values(|x: GDd<'a>| e_dd(x)) }
pub open spec fn e_root<'a>(x: (CoreOperationType, Name<'a>)) -> (CoreOperationType, Seq<char>) { (x.0, x.1.value@) }
pub open spec fn e_roots<'a>(s: Seq<(CoreOperationType, Name<'a>)>) -> Seq<(CoreOperationType, Seq<char>)> { s.map_values(|x: (CoreOperationType, Name<'a>)| e_root(x)) }
pub open spec fn e_schema<'a>(d: GSchema<'a>) -> ESchema { ESchema { desc: e_desc(d.desc), dirs: e_dirs(d.dirs), roots: e_roots(d.roots) } }

// what the grammar guarantees of a document it derives
pub open spec fn wf_iv<'a>(v: GIv<'a>) -> bool { (v.default_ is Some ==> wf_value(v.default_->0, true)) && wf_dirs(v.dirs, true) }
pub open spec fn wf_ivs<'a>(s: Seq<GIv<'a>>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> wf_iv(#[trigger] s[i]) }
pub open spec fn wf_oargsdef<'a>(s: Option<Seq<GIv<'a>>>) -> bool { s is Some ==> wf_ivs(s->0) }
pub open spec fn wf_fd<'a>(v: GFd<'a>) -> bool { wf_oargsdef(v.args) && wf_dirs(v.dirs, true) }
pub open spec fn wf_fds<'a>(s: Seq<GFd<'a>>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> wf_fd(#[trigger] s[i]) }
pub open spec fn wf_ev<'a>(v: GEv<'a>) -> bool { v.name.value@ != "null"@ && v.name.value@ != "true"@ && v.name.value@ != "false"@ && wf_dirs(v.dirs, true) }
pub open spec fn wf_evs<'a>(s: Seq<GEv<'a>>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> wf_ev(#[trigger] s[i]) }
pub open spec fn wf_oifs<'a>(s: Option<Seq<Name<'a>>>) -> bool { s is Some ==> s->0.len() > 0 }
pub open spec fn wf_td<'a>(d: GTd<'a>) -> bool { match d {
    GTd::Scalar { desc, name, dirs } => wf_dirs(dirs, true),
    GTd::Object { desc, name, ifs, dirs, fields } => wf_oifs(ifs) && wf_dirs(dirs, true) && wf_fds(fields),
    GTd::Interface { desc, name, ifs, dirs, fields } => wf_oifs(ifs) && wf_dirs(dirs, true) && wf_fds(fields),
    GTd::Input { desc, name, dirs, fields } => wf_dirs(dirs, true) && wf_ivs(fields),
    GTd::Enum { desc, name, dirs, values } => wf_dirs(dirs, true) && wf_evs(values),
    GTd::Union { desc, name, dirs, members } => wf_dirs(dirs, true) && members.len() > 0,
} }
pub open spec fn wf_dd<'a>(d: GDd<'a>) -> bool { wf_oargsdef(d.args) && d.locs.len() > 0 }
pub open spec fn wf_schema<'a>(d: GSchema<'a>) -> bool { wf_dirs(d.dirs, true) }
pub open spec fn wf_tds<'a>(s: Seq<GTd<'a>>) -> bool { forall|i: int| 0 <= i < s.len() ==> wf_td(#[trigger] s[i]) }
pub open spec fn wf_dds<'a>(s: Seq<GDd<'a>>) -> bool { forall|i: int| 0 <= i < s.len() ==> wf_dd(#[trigger] s[i]) }
pub open spec fn wf_sdl<'a>(d: GSdl<'a>) -> bool { wf_tds(d.types) && wf_dds(d.dirs) && (forall|i: int| 0 <= i < d.schemas.len() ==> wf_schema(#[trigger] d.schemas[i])) }
pub proof fn w_iv<'a>(t: Seq<Tok<'a>>) requires g_iv(t) is Some ensures wf_iv(fst(g_iv(t))) {
    let t4 = rest(g_type(rest(t_punct(rest(t_name(g_desc(t).1)), PunctuatorType::Colon))));
    if t_punct(t4, PunctuatorType::Equals) is Some { w_value(rest(t_punct(t4, PunctuatorType::Equals)), true); }
    w_dirs(rest(g_default(t4)), true, seq![]);
}
pub proof fn w_ivs_rest<'a>(t: Seq<Tok<'a>>, close: PunctuatorType, acc: Seq<GIv<'a>>) requires g_ivs_rest(t, close, acc) is Some, acc.len() > 0 ==> wf_ivs(acc)
    ensures wf_ivs(fst(g_ivs_rest(t, close, acc))) decreases t.len()
{ w_iv(t); let a = g_iv(t)->0; assert(wf_ivs(acc.push(a.0))); if t_punct(a.1, close) is None { w_ivs_rest(a.1, close, acc.push(a.0)); } }
pub proof fn w_oargsdef<'a>(t: Seq<Tok<'a>>) requires g_oargsdef(t) is Some ensures wf_oargsdef(fst(g_oargsdef(t))) {
    if is_punct(t, 0, PunctuatorType::OpenRoundBracket) { w_ivs_rest(rest(t_punct(t, PunctuatorType::OpenRoundBracket)), PunctuatorType::CloseRoundBracket, seq![]); }
}
pub proof fn w_fd<'a>(t: Seq<Tok<'a>>) requires g_fd(t) is Some ensures wf_fd(fst(g_fd(t))) {
    let t2 = rest(t_name(g_desc(t).1)); w_oargsdef(t2); let t5 = rest(g_type(rest(t_punct(rest(g_oargsdef(t2)), PunctuatorType::Colon)))); w_dirs(t5, true, seq![]);
}
pub proof fn w_fds_rest<'a>(t: Seq<Tok<'a>>, acc: Seq<GFd<'a>>) requires g_fds_rest(t, acc) is Some, acc.len() > 0 ==> wf_fds(acc)
    ensures wf_fds(fst(g_fds_rest(t, acc))) decreases t.len()
{ w_fd(t); let a = g_fd(t)->0; assert(wf_fds(acc.push(a.0))); if t_punct(a.1, PunctuatorType::CloseBrace) is None { w_fds_rest(a.1, acc.push(a.0)); } }
pub proof fn w_ev<'a>(t: Seq<Tok<'a>>) requires g_ev(t) is Some ensures wf_ev(fst(g_ev(t))) { w_dirs(rest(t_name(g_desc(t).1)), true, seq![]); }
pub proof fn w_evs_rest<'a>(t: Seq<Tok<'a>>, acc: Seq<GEv<'a>>) requires g_evs_rest(t, acc) is Some, acc.len() > 0 ==> wf_evs(acc)
    ensures wf_evs(fst(g_evs_rest(t, acc))) decreases t.len()
{ w_ev(t); let a = g_ev(t)->0; assert(wf_evs(acc.push(a.0))); if t_punct(a.1, PunctuatorType::CloseBrace) is None { w_evs_rest(a.1, acc.push(a.0)); } }
pub proof fn w_names_more<'a>(t: Seq<Tok<'a>>, sep: PunctuatorType, acc: Seq<Name<'a>>) requires g_names_more(t, sep, acc) is Some ensures fst(g_names_more(t, sep, acc)).len() >= acc.len() decreases t.len() {
    if t_punct(t, sep) is Some { let r = t_name(rest(t_punct(t, sep)))->0; w_names_more(r.1, sep, acc.push(r.0)); }
}
pub proof fn w_names<'a>(t: Seq<Tok<'a>>, sep: PunctuatorType) requires g_names(t, sep, seq![]) is Some ensures fst(g_names(t, sep, seq![])).len() > 0 { let r = t_name(t)->0; w_names_more(r.1, sep, Seq::<Name<'a>>::empty().push(r.0)); }
pub proof fn w_oifs<'a>(t: Seq<Tok<'a>>) requires g_oifs(t) is Some ensures wf_oifs(fst(g_oifs(t))) {
    if is_kw(t, 0, "implements"@) { w_names(g_oskip(rest(t_kw(t, "implements"@)), PunctuatorType::Ampersand), PunctuatorType::Ampersand); }
}
pub proof fn w_locs_more<'a>(t: Seq<Tok<'a>>, acc: Seq<CoreDirectiveLocation>) requires g_locs_more(t, acc) is Some ensures fst(g_locs_more(t, acc)).len() >= acc.len() decreases t.len() {
    if t_punct(t, PunctuatorType::Pipe) is Some { let r = g_loc(rest(t_punct(t, PunctuatorType::Pipe)))->0; w_locs_more(r.1, acc.push(r.0)); }
}
pub proof fn w_obj<'a>(t1: Seq<Tok<'a>>) requires g_oifs(t1) is Some, g_odirs(rest(g_oifs(t1))) is Some, g_fields(rest(g_odirs(rest(g_oifs(t1))))) is Some
    ensures wf_oifs(fst(g_oifs(t1))), wf_dirs(fst(g_odirs(rest(g_oifs(t1)))), true), wf_fds(fst(g_fields(rest(g_odirs(rest(g_oifs(t1)))))))
{ w_oifs(t1); let t2 = rest(g_oifs(t1)); w_dirs(t2, true, seq![]); let t3 = rest(g_odirs(t2)); w_fds_rest(rest(t_punct(t3, PunctuatorType::OpenBrace)), seq![]); }
pub proof fn w_scalar<'a>(t: Seq<Tok<'a>>) requires g_scalar(t) is Some ensures wf_td(fst(g_scalar(t))) { hide(g_head); hide(g_dirs); w_dirs(rest(g_head(t, "scalar"@)), true, seq![]); }
pub proof fn w_object_td<'a>(t: Seq<Tok<'a>>) requires g_object_td(t) is Some ensures wf_td(fst(g_object_td(t))) { hide(g_head); hide(g_oifs); hide(g_dirs); hide(g_fields); w_obj(rest(g_head(t, "type"@))); }
pub proof fn w_interface<'a>(t: Seq<Tok<'a>>) requires g_interface(t) is Some ensures wf_td(fst(g_interface(t))) { hide(g_head); hide(g_oifs); hide(g_dirs); hide(g_fields); w_obj(rest(g_head(t, "interface"@))); }
pub proof fn w_input<'a>(t: Seq<Tok<'a>>) requires g_input(t) is Some ensures wf_td(fst(g_input(t))) {
    hide(g_head); hide(g_dirs); hide(g_ivs_rest); let t1 = rest(g_head(t, "input"@)); w_dirs(t1, true, seq![]); let t3 = rest(g_odirs(t1)); w_ivs_rest(rest(t_punct(t3, PunctuatorType::OpenBrace)), PunctuatorType::CloseBrace, seq![]); }
pub proof fn w_enum<'a>(t: Seq<Tok<'a>>) requires g_enum(t) is Some ensures wf_td(fst(g_enum(t))) {
    hide(g_head); hide(g_dirs); hide(g_evs_rest); let t1 = rest(g_head(t, "enum"@)); w_dirs(t1, true, seq![]); let t3 = rest(g_odirs(t1)); w_evs_rest(rest(t_punct(t3, PunctuatorType::OpenBrace)), seq![]); }
pub proof fn w_union<'a>(t: Seq<Tok<'a>>) requires g_union(t) is Some ensures wf_td(fst(g_union(t))) {
    hide(g_head); hide(g_dirs); hide(g_names); let t1 = rest(g_head(t, "union"@)); w_dirs(t1, true, seq![]); let t4 = rest(t_punct(rest(g_odirs(t1)), PunctuatorType::Equals)); w_names(g_oskip(t4, PunctuatorType::Pipe), PunctuatorType::Pipe); }
pub proof fn w_td<'a>(t: Seq<Tok<'a>>) requires g_td(t) is Some ensures wf_td(fst(g_td(t))) {
    hide(g_scalar); hide(g_object_td); hide(g_input); hide(g_enum); hide(g_union); hide(g_interface); hide(wf_td);
    if kw_at(t, "scalar"@) { w_scalar(t); } else if kw_at(t, "type"@) { w_object_td(t); } else if kw_at(t, "input"@) { w_input(t); } else if kw_at(t, "enum"@) { w_enum(t); } else if kw_at(t, "union"@) { w_union(t); } else { w_interface(t); }
}
pub proof fn w_dirdef<'a>(t: Seq<Tok<'a>>) requires g_dirdef(t) is Some ensures wf_dd(fst(g_dirdef(t))) {
    let t4 = rest(t_name(rest(t_punct(rest(t_kw(g_desc(t).1, "directive"@)), PunctuatorType::At)))); w_oargsdef(t4);
    let t7 = rest(t_kw(g_orep(rest(g_oargsdef(t4))).1, "on"@)); let r = g_loc(g_oskip(t7, PunctuatorType::Pipe))->0; w_locs_more(r.1, Seq::<CoreDirectiveLocation>::empty().push(r.0));
}
pub proof fn w_schema<'a>(t: Seq<Tok<'a>>) requires g_schema(t) is Some ensures wf_schema(fst(g_schema(t))) { w_dirs(rest(t_kw(g_desc(t).1, "schema"@)), true, seq![]); }
pub proof fn w_sdl<'a>(t: Seq<Tok<'a>>, acc: GSdl<'a>) requires g_sdl(t, acc) is Some, wf_sdl(acc) ensures wf_sdl(g_sdl(t, acc)->0) decreases t.len() {
    if t.len() == 0 { }
    else if is_td(t) { w_td(t); let a = g_td(t)->0; assert(wf_tds(acc.types.push(a.0))); w_sdl(a.1, GSdl { types: acc.types.push(a.0), ..acc }); }
    else if kw_at(t, "schema"@) { w_schema(t); let a = g_schema(t)->0; w_sdl(a.1, GSdl { schemas: acc.schemas.push(a.0), ..acc }); }
    else { w_dirdef(t); let a = g_dirdef(t)->0; assert(wf_dds(acc.dirs.push(a.0))); w_sdl(a.1, GSdl { dirs: acc.dirs.push(a.0), ..acc }); }
}

// reading back
/// what may follow a definition: the end, the next definition, or a closing bracket
pub open spec fn after(k: Seq<KTok>) -> bool { k.len() == 0 || k[0] is Str || k[0] is Name || k[0] == KTok::P(PunctuatorType::CloseRoundBracket) || k[0] == KTok::P(PunctuatorType::CloseBrace) }
pub proof fn r_desc<'a>(t: Seq<Tok<'a>>, d: Option<StringValue<'a>>, k: Seq<KTok>) requires ks(t) == p_desc(d, k), k.len() > 0, !(k[0] is Str)
    ensures e_desc(g_desc(t).0) == e_desc(d), ks(g_desc(t).1) == k, g_desc(t).1.len() <= t.len(), t.len() > 0, g_desc(t).1.len() > 0, t.len() > g_kwpos(t), t[g_kwpos(t)] == g_desc(t).1[0], after(ks(t)) || !(k[0] is Name)
{ head(t); if d is Some { peel(t, KTok::Str(d->0.contents@), k); let t1 = t.skip(1); head(t1); assert(t1[0] == t[1]); } }
pub proof fn r_iv<'a>(t: Seq<Tok<'a>>, v: GIv<'a>, k: Seq<KTok>) requires ks(t) == p_iv(v, k), wf_iv(v), after(k)
    ensures g_iv(t) is Some, e_iv(fst(g_iv(t))) == e_iv(v), ks(rest(g_iv(t))) == k, rest(g_iv(t)).len() < t.len(), after(ks(t))
{
    let k4 = p_dirs(v.dirs, k); let k3 = p_default(v.default_, k4); let k2 = p_type(v.ty, k3); let k1 = cons(KTok::P(PunctuatorType::Colon), k2);
    dirs_head(v.dirs, k);
    r_desc(t, v.desc, p_name(v.name, k1)); let t1 = g_desc(t).1;
    peel(t1, KTok::Name(v.name.value@), k1); peel(t1.skip(1), KTok::P(PunctuatorType::Colon), k2);
    let t3 = t1.skip(1).skip(1); assert(v.default_ is Some ==> k3[0] == KTok::P(PunctuatorType::Equals)); r_type(t3, v.ty, k3);
    let t4 = rest(g_type(t3)); r_default(t4, v.default_, k4); let t5 = rest(g_default(t4)); r_dirs0(t5, true, v.dirs, k);
}
pub proof fn ivs_head<'a>(s: Seq<GIv<'a>>, k: Seq<KTok>) requires after(k) ensures after(p_ivs(s, k)), s.len() > 0 ==> p_ivs(s, k).len() > 0 && (p_ivs(s, k)[0] is Str || p_ivs(s, k)[0] is Name) { if s.len() > 0 { let k1 = p_ivs(s.drop_first(), k); assert(p_ivs(s, k) == p_iv(s[0], k1)); assert(p_iv(s[0], k1)[0] is Str || p_iv(s[0], k1)[0] is Name); } }
pub proof fn r_ivs_rest<'a>(t: Seq<Tok<'a>>, close: PunctuatorType, acc: Seq<GIv<'a>>, s: Seq<GIv<'a>>, k: Seq<KTok>)
    requires ks(t) == p_ivs(s, cons(KTok::P(close), k)), wf_ivs(s), close == PunctuatorType::CloseRoundBracket || close == PunctuatorType::CloseBrace
    ensures g_ivs_rest(t, close, acc) is Some, e_ivs(fst(g_ivs_rest(t, close, acc))) == e_ivs(acc) + e_ivs(s), ks(rest(g_ivs_rest(t, close, acc))) == k, rest(g_ivs_rest(t, close, acc)).len() < t.len()
    decreases t.len()
{
    let kk = cons(KTok::P(close), k); let s1 = s.drop_first(); let k1 = p_ivs(s1, kk);
    assert(kk[0] == KTok::P(close)); ivs_head(s1, kk);
    r_iv(t, s[0], k1);
    let r = g_iv(t)->0; head(r.1);
    if s1.len() == 0 { peel(r.1, KTok::P(close), k); acc_last(|x: GIv<'a>| e_iv(x), acc, r.0, s); }
    else {
        acc_step(|x: GIv<'a>| e_iv(x), acc, r.0, s);
        assert forall|i: int| 0 <= i < s1.len() implies wf_iv(#[trigger] s1[i]) by { assert(s1[i] == s[i + 1]); }
        r_ivs_rest(r.1, close, acc.push(r.0), s1, k);
    }
}
pub proof fn oargsdef_head<'a>(s: Option<Seq<GIv<'a>>>, k: Seq<KTok>) requires wf_oargsdef(s) ensures s is Some ==> starts(p_oargsdef(s, k), PunctuatorType::OpenRoundBracket), s is None ==> p_oargsdef(s, k) == k { }
pub proof fn r_oargsdef<'a>(t: Seq<Tok<'a>>, s: Option<Seq<GIv<'a>>>, k: Seq<KTok>) requires ks(t) == p_oargsdef(s, k), wf_oargsdef(s), !starts(k, PunctuatorType::OpenRoundBracket)
    ensures g_oargsdef(t) is Some, e_oargsdef(fst(g_oargsdef(t))) == e_oargsdef(s), ks(rest(g_oargsdef(t))) == k, rest(g_oargsdef(t)).len() <= t.len()
{ head(t); if s is Some { peel(t, KTok::P(PunctuatorType::OpenRoundBracket), p_ivs(s->0, cons(KTok::P(PunctuatorType::CloseRoundBracket), k))); r_ivs_rest(t.skip(1), PunctuatorType::CloseRoundBracket, seq![], s->0, k); acc_empty(|x: GIv<'a>| e_iv(x), s->0); } }
pub proof fn r_infields<'a>(t: Seq<Tok<'a>>, s: Seq<GIv<'a>>, k: Seq<KTok>) requires ks(t) == p_infields(s, k), wf_ivs(s)
    ensures g_infields(t) is Some, e_ivs(fst(g_infields(t))) == e_ivs(s), ks(rest(g_infields(t))) == k, rest(g_infields(t)).len() < t.len()
{ peel(t, KTok::P(PunctuatorType::OpenBrace), p_ivs(s, cons(KTok::P(PunctuatorType::CloseBrace), k))); r_ivs_rest(t.skip(1), PunctuatorType::CloseBrace, seq![], s, k); acc_empty(|x: GIv<'a>| e_iv(x), s); }
pub proof fn r_fd<'a>(t: Seq<Tok<'a>>, v: GFd<'a>, k: Seq<KTok>) requires ks(t) == p_fd(v, k), wf_fd(v), after(k)
    ensures g_fd(t) is Some, e_fd(fst(g_fd(t))) == e_fd(v), ks(rest(g_fd(t))) == k, rest(g_fd(t)).len() < t.len()
{
    let k4 = p_dirs(v.dirs, k); let k3 = p_type(v.ty, k4); let k2 = cons(KTok::P(PunctuatorType::Colon), k3); let k1 = p_oargsdef(v.args, k2);
    dirs_head(v.dirs, k); assert(k2[0] == KTok::P(PunctuatorType::Colon));
    r_desc(t, v.desc, p_name(v.name, k1)); let t1 = g_desc(t).1; peel(t1, KTok::Name(v.name.value@), k1); let t2 = t1.skip(1);
    r_oargsdef(t2, v.args, k2); let t3 = rest(g_oargsdef(t2)); peel(t3, KTok::P(PunctuatorType::Colon), k3); let t4 = t3.skip(1);
    r_type(t4, v.ty, k4); let t5 = rest(g_type(t4)); r_dirs0(t5, true, v.dirs, k);
}
pub proof fn fds_head<'a>(s: Seq<GFd<'a>>, k: Seq<KTok>) requires after(k) ensures after(p_fds(s, k)), s.len() > 0 ==> p_fds(s, k).len() > 0 && (p_fds(s, k)[0] is Str || p_fds(s, k)[0] is Name) { if s.len() > 0 { let k1 = p_fds(s.drop_first(), k); assert(p_fds(s, k) == p_fd(s[0], k1)); assert(p_fd(s[0], k1)[0] is Str || p_fd(s[0], k1)[0] is Name); } }
pub proof fn r_fds_rest<'a>(t: Seq<Tok<'a>>, acc: Seq<GFd<'a>>, s: Seq<GFd<'a>>, k: Seq<KTok>)
    requires ks(t) == p_fds(s, cons(KTok::P(PunctuatorType::CloseBrace), k)), wf_fds(s)
    ensures g_fds_rest(t, acc) is Some, e_fds(fst(g_fds_rest(t, acc))) == e_fds(acc) + e_fds(s), ks(rest(g_fds_rest(t, acc))) == k, rest(g_fds_rest(t, acc)).len() < t.len()
    decreases t.len()
{
    let kk = cons(KTok::P(PunctuatorType::CloseBrace), k); let s1 = s.drop_first(); let k1 = p_fds(s1, kk);
    assert(kk[0] == KTok::P(PunctuatorType::CloseBrace)); fds_head(s1, kk);
    r_fd(t, s[0], k1);
    let r = g_fd(t)->0; head(r.1);
    if s1.len() == 0 { peel(r.1, KTok::P(PunctuatorType::CloseBrace), k); acc_last(|x: GFd<'a>| e_fd(x), acc, r.0, s); }
    else {
        acc_step(|x: GFd<'a>| e_fd(x), acc, r.0, s);
        assert forall|i: int| 0 <= i < s1.len() implies wf_fd(#[trigger] s1[i]) by { assert(s1[i] == s[i + 1]); }
        r_fds_rest(r.1, acc.push(r.0), s1, k);
    }
}
pub proof fn r_fields<'a>(t: Seq<Tok<'a>>, s: Seq<GFd<'a>>, k: Seq<KTok>) requires ks(t) == p_fdef(s, k), wf_fds(s)
    ensures g_fields(t) is Some, e_fds(fst(g_fields(t))) == e_fds(s), ks(rest(g_fields(t))) == k, rest(g_fields(t)).len() < t.len()
{ peel(t, KTok::P(PunctuatorType::OpenBrace), p_fds(s, cons(KTok::P(PunctuatorType::CloseBrace), k))); r_fds_rest(t.skip(1), seq![], s, k); acc_empty(|x: GFd<'a>| e_fd(x), s); }
pub proof fn r_ev<'a>(t: Seq<Tok<'a>>, v: GEv<'a>, k: Seq<KTok>) requires ks(t) == p_ev(v, k), wf_ev(v), after(k)
    ensures g_ev(t) is Some, e_ev(fst(g_ev(t))) == e_ev(v), ks(rest(g_ev(t))) == k, rest(g_ev(t)).len() < t.len()
{
    let k1 = p_dirs(v.dirs, k); dirs_head(v.dirs, k);
    r_desc(t, v.desc, p_name(v.name, k1)); let t1 = g_desc(t).1; peel(t1, KTok::Name(v.name.value@), k1); r_dirs0(t1.skip(1), true, v.dirs, k);
}
pub proof fn evs_head<'a>(s: Seq<GEv<'a>>, k: Seq<KTok>) requires after(k) ensures after(p_evs(s, k)), s.len() > 0 ==> p_evs(s, k).len() > 0 && (p_evs(s, k)[0] is Str || p_evs(s, k)[0] is Name) { if s.len() > 0 { let k1 = p_evs(s.drop_first(), k); assert(p_evs(s, k) == p_ev(s[0], k1)); assert(p_ev(s[0], k1)[0] is Str || p_ev(s[0], k1)[0] is Name); } }
pub proof fn r_evs_rest<'a>(t: Seq<Tok<'a>>, acc: Seq<GEv<'a>>, s: Seq<GEv<'a>>, k: Seq<KTok>)
    requires ks(t) == p_evs(s, cons(KTok::P(PunctuatorType::CloseBrace), k)), wf_evs(s)
    ensures g_evs_rest(t, acc) is Some, e_evs(fst(g_evs_rest(t, acc))) == e_evs(acc) + e_evs(s), ks(rest(g_evs_rest(t, acc))) == k, rest(g_evs_rest(t, acc)).len() < t.len()
    decreases t.len()
{
    let kk = cons(KTok::P(PunctuatorType::CloseBrace), k); let s1 = s.drop_first(); let k1 = p_evs(s1, kk);
    assert(kk[0] == KTok::P(PunctuatorType::CloseBrace)); evs_head(s1, kk);
    r_ev(t, s[0], k1);
    let r = g_ev(t)->0; head(r.1);
    if s1.len() == 0 { peel(r.1, KTok::P(PunctuatorType::CloseBrace), k); acc_last(|x: GEv<'a>| e_ev(x), acc, r.0, s); }
    else {
        acc_step(|x: GEv<'a>| e_ev(x), acc, r.0, s);
        assert forall|i: int| 0 <= i < s1.len() implies wf_ev(#[trigger] s1[i]) by { assert(s1[i] == s[i + 1]); }
        r_evs_rest(r.1, acc.push(r.0), s1, k);
    }
}
pub proof fn r_values<'a>(t: Seq<Tok<'a>>, s: Seq<GEv<'a>>, k: Seq<KTok>) requires ks(t) == p_values(s, k), wf_evs(s)
    ensures g_values(t) is Some, e_evs(fst(g_values(t))) == e_evs(s), ks(rest(g_values(t))) == k, rest(g_values(t)).len() < t.len()
{ peel(t, KTok::P(PunctuatorType::OpenBrace), p_evs(s, cons(KTok::P(PunctuatorType::CloseBrace), k))); r_evs_rest(t.skip(1), seq![], s, k); acc_empty(|x: GEv<'a>| e_ev(x), s); }
pub proof fn r_names_more<'a>(t: Seq<Tok<'a>>, sep: PunctuatorType, acc: Seq<Name<'a>>, s: Seq<Name<'a>>, k: Seq<KTok>)
    requires ks(t) == p_names(s, sep, true, k), !starts(k, sep)
    ensures g_names_more(t, sep, acc) is Some, e_names(fst(g_names_more(t, sep, acc))) == e_names(acc) + e_names(s), ks(rest(g_names_more(t, sep, acc))) == k, rest(g_names_more(t, sep, acc)).len() <= t.len()
    decreases s.len()
{
    head(t);
    if s.len() == 0 { acc_none(|x: Name<'a>| x.value@, acc, s); }
    else {
        let k1 = p_names(s.drop_first(), sep, true, k); peel(t, KTok::P(sep), p_name(s[0], k1)); let t1 = t.skip(1); peel(t1, KTok::Name(s[0].value@), k1);
        let y = fst(t_name(t1)); acc_step(|x: Name<'a>| x.value@, acc, y, s); r_names_more(t1.skip(1), sep, acc.push(y), s.drop_first(), k);
    }
}
pub proof fn r_names<'a>(t: Seq<Tok<'a>>, sep: PunctuatorType, s: Seq<Name<'a>>, k: Seq<KTok>) requires ks(t) == p_names(s, sep, false, k), s.len() > 0, !starts(k, sep)
    ensures g_oskip(t, sep) == t, g_names(t, sep, seq![]) is Some, e_names(fst(g_names(t, sep, seq![]))) == e_names(s), ks(rest(g_names(t, sep, seq![]))) == k, rest(g_names(t, sep, seq![])).len() < t.len()
{
    let k1 = p_names(s.drop_first(), sep, true, k); peel(t, KTok::Name(s[0].value@), k1); let y = fst(t_name(t)); let e = Seq::<Name<'a>>::empty();
    acc_step(|x: Name<'a>| x.value@, e, y, s); acc_empty(|x: Name<'a>| x.value@, s); r_names_more(t.skip(1), sep, e.push(y), s.drop_first(), k);
}
pub proof fn r_oifs<'a>(t: Seq<Tok<'a>>, s: Option<Seq<Name<'a>>>, k: Seq<KTok>) requires ks(t) == p_oifs(s, k), wf_oifs(s), k.len() > 0, !(k[0] is Name), !starts(k, PunctuatorType::Ampersand)
    ensures g_oifs(t) is Some, e_oifs(fst(g_oifs(t))) == e_oifs(s), ks(rest(g_oifs(t))) == k, rest(g_oifs(t)).len() <= t.len()
{ head(t); if s is Some { peel(t, KTok::Name("implements"@), p_names(s->0, PunctuatorType::Ampersand, false, k)); r_names(t.skip(1), PunctuatorType::Ampersand, s->0, k); } }
pub proof fn r_loc_name(l: CoreDirectiveLocation) ensures core_loc(loc_name(l)) == Some(l) {
    reveal_strlit("QUERY"); reveal_strlit("MUTATION"); reveal_strlit("SUBSCRIPTION"); reveal_strlit("FIELD"); reveal_strlit("FRAGMENT_DEFINITION"); reveal_strlit("FRAGMENT_SPREAD"); reveal_strlit("INLINE_FRAGMENT"); reveal_strlit("VARIABLE_DEFINITION");
    reveal_strlit("SCHEMA"); reveal_strlit("SCALAR"); reveal_strlit("OBJECT"); reveal_strlit("FIELD_DEFINITION"); reveal_strlit("ARGUMENT_DEFINITION"); reveal_strlit("INTERFACE"); reveal_strlit("UNION"); reveal_strlit("ENUM"); reveal_strlit("ENUM_VALUE"); reveal_strlit("INPUT_OBJECT"); reveal_strlit("INPUT_FIELD_DEFINITION");
    assert("QUERY"@.len() == 5 && "FIELD"@.len() == 5 && "UNION"@.len() == 5 && "QUERY"@[0] == 'Q' && "FIELD"@[0] == 'F' && "UNION"@[0] == 'U');
    assert("SCHEMA"@.len() == 6 && "SCALAR"@.len() == 6 && "OBJECT"@.len() == 6 && "SCHEMA"@[2] == 'H' && "SCALAR"@[2] == 'A' && "OBJECT"@[2] == 'J');
    assert("FRAGMENT_DEFINITION"@.len() == 19 && "VARIABLE_DEFINITION"@.len() == 19 && "ARGUMENT_DEFINITION"@.len() == 19 && "FRAGMENT_DEFINITION"@[0] == 'F' && "VARIABLE_DEFINITION"@[0] == 'V' && "ARGUMENT_DEFINITION"@[0] == 'A');
    assert("FRAGMENT_SPREAD"@.len() == 15 && "INLINE_FRAGMENT"@.len() == 15 && "FRAGMENT_SPREAD"@[0] == 'F' && "INLINE_FRAGMENT"@[0] == 'I');
    assert("MUTATION"@.len() == 8 && "SUBSCRIPTION"@.len() == 12 && "FIELD_DEFINITION"@.len() == 16 && "INTERFACE"@.len() == 9 && "ENUM"@.len() == 4 && "ENUM_VALUE"@.len() == 10 && "INPUT_OBJECT"@.len() == 12 && "INPUT_FIELD_DEFINITION"@.len() == 22 && "SUBSCRIPTION"@[0] == 'S' && "INPUT_OBJECT"@[0] == 'I');
}
pub proof fn r_locs_more<'a>(t: Seq<Tok<'a>>, acc: Seq<CoreDirectiveLocation>, s: Seq<CoreDirectiveLocation>, k: Seq<KTok>)
    requires ks(t) == p_locs(s, true, k), !starts(k, PunctuatorType::Pipe)
    ensures g_locs_more(t, acc) is Some, fst(g_locs_more(t, acc)) == acc + s, ks(rest(g_locs_more(t, acc))) == k, rest(g_locs_more(t, acc)).len() <= t.len()
    decreases s.len()
{
    head(t);
    if s.len() == 0 { assert(acc + s =~= acc); }
    else {
        r_loc_name(s[0]); let k1 = p_locs(s.drop_first(), true, k); let k2 = cons(KTok::Name(loc_name(s[0])), k1); peel(t, KTok::P(PunctuatorType::Pipe), k2); let t1 = t.skip(1); peel(t1, KTok::Name(loc_name(s[0])), k1);
        assert(acc.push(s[0]) + s.drop_first() =~= acc + s); r_locs_more(t1.skip(1), acc.push(s[0]), s.drop_first(), k);
    }
}
pub proof fn r_locs<'a>(t: Seq<Tok<'a>>, s: Seq<CoreDirectiveLocation>, k: Seq<KTok>) requires ks(t) == p_locs(s, false, k), s.len() > 0, !starts(k, PunctuatorType::Pipe)
    ensures g_locs(t) is Some, fst(g_locs(t)) == s, ks(rest(g_locs(t))) == k, rest(g_locs(t)).len() < t.len()
{
    r_loc_name(s[0]); let k1 = p_locs(s.drop_first(), true, k); peel(t, KTok::Name(loc_name(s[0])), k1); let e = Seq::<CoreDirectiveLocation>::empty();
    assert(e.push(s[0]) + s.drop_first() =~= s); r_locs_more(t.skip(1), e.push(s[0]), s.drop_first(), k);
}
pub proof fn r_head<'a>(t: Seq<Tok<'a>>, desc: Option<StringValue<'a>>, kw: Seq<char>, name: Name<'a>, k: Seq<KTok>) requires ks(t) == p_head(desc, kw, name, k)
    ensures g_head(t, kw) is Some, e_desc(fst(g_head(t, kw)).0) == e_desc(desc), fst(g_head(t, kw)).1.value@ == name.value@, ks(rest(g_head(t, kw))) == k, rest(g_head(t, kw)).len() < t.len(), kw_at(t, kw), forall|w: Seq<char>| #[trigger] kw_at(t, w) ==> w == kw
{
    let k1 = p_name(name, k); r_desc(t, desc, cons(KTok::Name(kw), k1)); let t1 = g_desc(t).1; peel(t1, KTok::Name(kw), k1); peel(t1.skip(1), KTok::Name(name.value@), k);
}
pub proof fn sdl_kws() ensures "scalar"@ != "type"@, "scalar"@ != "input"@, "scalar"@ != "enum"@, "scalar"@ != "union"@, "scalar"@ != "interface"@, "scalar"@ != "schema"@, "scalar"@ != "directive"@,
    "type"@ != "input"@, "type"@ != "enum"@, "type"@ != "union"@, "type"@ != "interface"@, "type"@ != "schema"@, "type"@ != "directive"@,
    "input"@ != "enum"@, "input"@ != "union"@, "input"@ != "interface"@, "input"@ != "schema"@, "input"@ != "directive"@,
    "enum"@ != "union"@, "enum"@ != "interface"@, "enum"@ != "schema"@, "enum"@ != "directive"@, "union"@ != "interface"@, "union"@ != "schema"@, "union"@ != "directive"@,
    "interface"@ != "schema"@, "interface"@ != "directive"@, "schema"@ != "directive"@, "on"@ != "repeatable"@
{
    reveal_strlit("scalar"); reveal_strlit("type"); reveal_strlit("input"); reveal_strlit("enum"); reveal_strlit("union"); reveal_strlit("interface"); reveal_strlit("schema"); reveal_strlit("directive"); reveal_strlit("on"); reveal_strlit("repeatable");
    assert("scalar"@.len() == 6 && "type"@.len() == 4 && "input"@.len() == 5 && "enum"@.len() == 4 && "union"@.len() == 5 && "interface"@.len() == 9 && "schema"@.len() == 6 && "directive"@.len() == 9 && "on"@.len() == 2 && "repeatable"@.len() == 10);
    assert("scalar"@[1] == 'c' && "schema"@[2] == 'h' && "scalar"@[2] == 'a' && "type"@[0] == 't' && "enum"@[0] == 'e' && "input"@[0] == 'i' && "union"@[0] == 'u' && "interface"@[0] == 'i' && "directive"@[0] == 'd');
}
pub proof fn r_obj<'a>(t1: Seq<Tok<'a>>, ifs: Option<Seq<Name<'a>>>, dirs: Seq<GDir<'a>>, fields: Seq<GFd<'a>>, k: Seq<KTok>)
    requires ks(t1) == p_oifs(ifs, p_dirs(dirs, p_fdef(fields, k))), wf_oifs(ifs), wf_dirs(dirs, true), wf_fds(fields)
    ensures ({ let a = g_oifs(t1); let b = g_odirs(rest(a)); let c = g_fields(rest(b)); a is Some && b is Some && c is Some && e_oifs(fst(a)) == e_oifs(ifs) && e_dirs(fst(b)) == e_dirs(dirs) && e_fds(fst(c)) == e_fds(fields) && ks(rest(c)) == k && rest(c).len() < t1.len() })
{
    let k3 = p_fdef(fields, k); let k2 = p_dirs(dirs, k3); assert(k3[0] == KTok::P(PunctuatorType::OpenBrace)); dirs_head(dirs, k3);
    r_oifs(t1, ifs, k2); let t2 = rest(g_oifs(t1)); r_dirs0(t2, true, dirs, k3); let t3 = rest(g_odirs(t2)); r_fields(t3, fields, k);
}
pub proof fn r_td<'a>(t: Seq<Tok<'a>>, d: GTd<'a>, k: Seq<KTok>) requires ks(t) == p_td(d, k), wf_td(d), after(k)
    ensures is_td(t), g_td(t) is Some, e_td(fst(g_td(t))) == e_td(d), ks(rest(g_td(t))) == k, rest(g_td(t)).len() < t.len()
{
    sdl_kws();
    match d {
        GTd::Scalar { desc, name, dirs } => { let k1 = p_dirs(dirs, k); r_head(t, desc, "scalar"@, name, k1); r_dirs0(rest(g_head(t, "scalar"@)), true, dirs, k); }
        GTd::Object { desc, name, ifs, dirs, fields } => { let k1 = p_oifs(ifs, p_dirs(dirs, p_fdef(fields, k))); r_head(t, desc, "type"@, name, k1); r_obj(rest(g_head(t, "type"@)), ifs, dirs, fields, k); }
        GTd::Interface { desc, name, ifs, dirs, fields } => { let k1 = p_oifs(ifs, p_dirs(dirs, p_fdef(fields, k))); r_head(t, desc, "interface"@, name, k1); r_obj(rest(g_head(t, "interface"@)), ifs, dirs, fields, k); }
        GTd::Input { desc, name, dirs, fields } => {
            let k2 = p_infields(fields, k); let k1 = p_dirs(dirs, k2); assert(k2[0] == KTok::P(PunctuatorType::OpenBrace)); r_head(t, desc, "input"@, name, k1);
            let t1 = rest(g_head(t, "input"@)); r_dirs0(t1, true, dirs, k2); r_infields(rest(g_odirs(t1)), fields, k);
        }
        GTd::Enum { desc, name, dirs, values } => {
            let k2 = p_values(values, k); let k1 = p_dirs(dirs, k2); assert(k2[0] == KTok::P(PunctuatorType::OpenBrace)); r_head(t, desc, "enum"@, name, k1);
            let t1 = rest(g_head(t, "enum"@)); r_dirs0(t1, true, dirs, k2); r_values(rest(g_odirs(t1)), values, k);
        }
        GTd::Union { desc, name, dirs, members } => {
            let k3 = p_names(members, PunctuatorType::Pipe, false, k); let k2 = cons(KTok::P(PunctuatorType::Equals), k3); let k1 = p_dirs(dirs, k2); assert(k2[0] == KTok::P(PunctuatorType::Equals)); r_head(t, desc, "union"@, name, k1);
            let t1 = rest(g_head(t, "union"@)); r_dirs0(t1, true, dirs, k2); let t3 = rest(g_odirs(t1)); peel(t3, KTok::P(PunctuatorType::Equals), k3); r_names(t3.skip(1), PunctuatorType::Pipe, members, k);
        }
    }
}
pub proof fn r_dirdef<'a>(t: Seq<Tok<'a>>, d: GDd<'a>, k: Seq<KTok>) requires ks(t) == p_dd(d, k), wf_dd(d), after(k)
    ensures !is_td(t), !kw_at(t, "schema"@), kw_at(t, "directive"@), g_dirdef(t) is Some, e_dd(fst(g_dirdef(t))) == e_dd(d), ks(rest(g_dirdef(t))) == k, rest(g_dirdef(t)).len() < t.len()
{
    sdl_kws();
    let k7 = p_locs(d.locs, false, k); let k6 = cons(KTok::Name("on"@), k7); let k5 = p_rep(d.repeatable, k6); let k4 = p_oargsdef(d.args, k5); let k3 = p_name(d.name, k4); let k2 = cons(KTok::P(PunctuatorType::At), k3);
    assert(k6[0] == KTok::Name("on"@)); assert(k5[0] is Name);
    r_desc(t, d.desc, cons(KTok::Name("directive"@), k2)); let t1 = g_desc(t).1; peel(t1, KTok::Name("directive"@), k2); let t2 = t1.skip(1); peel(t2, KTok::P(PunctuatorType::At), k3); let t3 = t2.skip(1); peel(t3, KTok::Name(d.name.value@), k4); let t4 = t3.skip(1);
    r_oargsdef(t4, d.args, k5); let t5 = rest(g_oargsdef(t4)); head(t5); if d.repeatable { peel(t5, KTok::Name("repeatable"@), k6); }
    let t6 = g_orep(t5).1; assert(ks(t6) == k6); peel(t6, KTok::Name("on"@), k7); r_locs(t6.skip(1), d.locs, k);
}
pub open spec fn s_oroot(op: CoreOperationType, name: Option<Seq<char>>) -> Seq<(CoreOperationType, Seq<char>)> { match name { None => seq![], Some(n) => seq![(op, n)] } }
pub open spec fn s_roots(q: Seq<char>, m: Option<Seq<char>>, s: Option<Seq<char>>) -> Seq<(CoreOperationType, Seq<char>)> { seq![(CoreOperationType::Query, q)] + s_oroot(CoreOperationType::Mutation, m) + s_oroot(CoreOperationType::Subscription, s) }
pub proof fn r_root<'a>(t: Seq<Tok<'a>>, op: CoreOperationType, n: Seq<char>, k: Seq<KTok>) requires ks(t) == p_root(opt_kw(op), n, k)
    ensures g_root(t) is Some, e_root(fst(g_root(t))) == (op, n), ks(rest(g_root(t))) == k, rest(g_root(t)).len() < t.len()
{
    reveal_strlit("query"); reveal_strlit("mutation"); reveal_strlit("subscription"); assert("query"@.len() == 5 && "mutation"@.len() == 8 && "subscription"@.len() == 12);
    let k2 = cons(KTok::Name(n), k); let k1 = cons(KTok::P(PunctuatorType::Colon), k2); peel(t, KTok::Name(opt_kw(op)), k1); let t1 = t.skip(1); peel(t1, KTok::P(PunctuatorType::Colon), k2); peel(t1.skip(1), KTok::Name(n), k);
}
/// the last root operation type of a schema definition
pub proof fn r_roots_end<'a>(t: Seq<Tok<'a>>, acc: Seq<(CoreOperationType, Name<'a>)>, op: CoreOperationType, n: Seq<char>, k: Seq<KTok>) requires ks(t) == p_root(opt_kw(op), n, cons(KTok::P(PunctuatorType::CloseBrace), k))
    ensures g_roots_rest(t, acc) is Some, e_roots(fst(g_roots_rest(t, acc))) == e_roots(acc) + seq![(op, n)], ks(rest(g_roots_rest(t, acc))) == k, rest(g_roots_rest(t, acc)).len() < t.len()
{
    let kk = cons(KTok::P(PunctuatorType::CloseBrace), k); r_root(t, op, n, kk); let a = g_root(t)->0; peel(a.1, KTok::P(PunctuatorType::CloseBrace), k);
    assert(e_roots(acc.push(a.0)) =~= e_roots(acc) + seq![(op, n)]);
}
/// one that others follow
pub proof fn r_roots_step<'a>(t: Seq<Tok<'a>>, acc: Seq<(CoreOperationType, Name<'a>)>, op: CoreOperationType, n: Seq<char>, k: Seq<KTok>) -> (r: (Seq<Tok<'a>>, Seq<(CoreOperationType, Name<'a>)>))
    requires ks(t) == p_root(opt_kw(op), n, k), k.len() > 0, k[0] is Name
    ensures g_roots_rest(t, acc) == g_roots_rest(r.0, r.1), ks(r.0) == k, r.0.len() < t.len(), e_roots(r.1) == e_roots(acc) + seq![(op, n)]
{
    r_root(t, op, n, k); let a = g_root(t)->0; head(a.1); assert(e_roots(acc.push(a.0)) =~= e_roots(acc) + seq![(op, n)]);
    (a.1, acc.push(a.0))
}
pub proof fn r_schema<'a>(t: Seq<Tok<'a>>, desc: Option<StringValue<'a>>, dirs: Seq<GDir<'a>>, q: Seq<char>, m: Option<Seq<char>>, s: Option<Seq<char>>, k: Seq<KTok>) requires ks(t) == p_schema(desc, dirs, q, m, s, k), wf_dirs(dirs, true)
    ensures !is_td(t), kw_at(t, "schema"@), g_schema(t) is Some, e_schema(fst(g_schema(t))) == (ESchema { desc: e_desc(desc), dirs: e_dirs(dirs), roots: s_roots(q, m, s) }), ks(rest(g_schema(t))) == k, rest(g_schema(t)).len() < t.len()
{
    sdl_kws();
    let ke = cons(KTok::P(PunctuatorType::CloseBrace), k); let k6 = p_oroot("subscription"@, s, ke); let k5 = p_oroot("mutation"@, m, k6); let k4 = p_root("query"@, q, k5); let k3 = cons(KTok::P(PunctuatorType::OpenBrace), k4); let k2 = p_dirs(dirs, k3);
    assert(k3[0] == KTok::P(PunctuatorType::OpenBrace));
    r_desc(t, desc, cons(KTok::Name("schema"@), k2)); let t1 = g_desc(t).1; peel(t1, KTok::Name("schema"@), k2); let t2 = t1.skip(1); r_dirs0(t2, true, dirs, k3); let t3 = rest(g_odirs(t2)); peel(t3, KTok::P(PunctuatorType::OpenBrace), k4); let t4 = t3.skip(1);
    let e = Seq::<(CoreOperationType, Name<'a>)>::empty(); assert(e_roots(e) =~= seq![]);
    let q1 = (CoreOperationType::Query, q); assert(e_roots(e) + seq![q1] =~= seq![q1]);
    if m is None && s is None { r_roots_end(t4, e, CoreOperationType::Query, q, k); assert(s_roots(q, m, s) =~= seq![q1]); }
    else {
        assert(k5[0] is Name);
        let r = r_roots_step(t4, e, CoreOperationType::Query, q, k5);
        if s is None { r_roots_end(r.0, r.1, CoreOperationType::Mutation, m->0, k); assert(s_roots(q, m, s) =~= seq![q1] + seq![(CoreOperationType::Mutation, m->0)]); }
        else if m is None { r_roots_end(r.0, r.1, CoreOperationType::Subscription, s->0, k); assert(s_roots(q, m, s) =~= seq![q1] + seq![(CoreOperationType::Subscription, s->0)]); }
        else {
            assert(k6[0] is Name);
            let r2 = r_roots_step(r.0, r.1, CoreOperationType::Mutation, m->0, k6); r_roots_end(r2.0, r2.1, CoreOperationType::Subscription, s->0, k);
            assert(s_roots(q, m, s) =~= seq![q1] + seq![(CoreOperationType::Mutation, m->0)] + seq![(CoreOperationType::Subscription, s->0)]);
        }
    }
}
/// a schema definition as it is printed
pub struct PSchema<'a> { pub desc: Option<StringValue<'a>>, pub dirs: Seq<GDir<'a>>, pub q: Seq<char>, pub m: Option<Seq<char>>, pub s: Option<Seq<char>> }
pub open spec fn p_osch<'a>(o: Option<PSchema<'a>>) -> Seq<KTok> { match o { None => seq![], Some(x) => p_schema(x.desc, x.dirs, x.q, x.m, x.s, seq![]) } }
pub open spec fn e_psch<'a>(x: PSchema<'a>) -> ESchema { ESchema { desc: e_desc(x.desc), dirs: e_dirs(x.dirs), roots: s_roots(x.q, x.m, x.s) } }
pub proof fn td_head<'a>(d: GTd<'a>, k: Seq<KTok>) ensures p_td(d, k).len() > 0, p_td(d, k)[0] is Str || p_td(d, k)[0] is Name { }
pub proof fn tds_head<'a>(s: Seq<GTd<'a>>, k: Seq<KTok>) requires after(k) ensures after(p_tds(s, k)) { if s.len() > 0 { td_head(s[0], p_tds(s.drop_first(), k)); } }
pub proof fn dds_head<'a>(s: Seq<GDd<'a>>, k: Seq<KTok>) requires after(k) ensures after(p_dds(s, k)) { if s.len() > 0 { let k1 = p_dds(s.drop_first(), k); assert(p_dds(s, k) == p_dd(s[0], k1)); assert(p_dd(s[0], k1)[0] is Str || p_dd(s[0], k1)[0] is Name); } }
pub proof fn osch_head<'a>(o: Option<PSchema<'a>>) ensures after(p_osch(o)), o is None <==> p_osch(o).len() == 0 { if o is Some { assert(p_osch(o)[0] is Str || p_osch(o)[0] is Name); } }
pub open spec fn reads_sdl<'a>(t: Seq<Tok<'a>>, acc: GSdl<'a>, dd: Seq<GDd<'a>>, td: Seq<GTd<'a>>, o: Option<PSchema<'a>>) -> bool {
    &&& g_sdl(t, acc) is Some
    &&& e_dds(g_sdl(t, acc)->0.dirs) == e_dds(acc.dirs) + e_dds(dd)
    &&& e_tds(g_sdl(t, acc)->0.types) == e_tds(acc.types) + e_tds(td)
    &&& (o is None ==> g_sdl(t, acc)->0.schemas == acc.schemas)
    &&& (o is Some ==> g_sdl(t, acc)->0.schemas.len() == acc.schemas.len() + 1 && e_schema(g_sdl(t, acc)->0.schemas.last()) == e_psch(o->0))
}
pub proof fn r_sdl<'a>(t: Seq<Tok<'a>>, acc: GSdl<'a>, dd: Seq<GDd<'a>>, td: Seq<GTd<'a>>, o: Option<PSchema<'a>>)
    requires ks(t) == p_dds(dd, p_tds(td, p_osch(o))), wf_dds(dd), wf_tds(td), o is Some ==> wf_dirs(o->0.dirs, true)
    ensures reads_sdl(t, acc, dd, td, o)
    decreases t.len()
{
    hide(p_td); hide(p_dd); hide(p_schema); hide(g_td); hide(g_schema); hide(g_dirdef); hide(is_td); hide(kw_at); hide(e_td); hide(e_dd); hide(e_schema); hide(wf_td); hide(wf_dd);
    head(t); osch_head(o); let ko = p_osch(o); tds_head(td, ko); let kt = p_tds(td, ko);
    if dd.len() > 0 {
        let s1 = dd.drop_first(); let k1 = p_dds(s1, kt); dds_head(s1, kt); assert(p_dds(dd, kt) == p_dd(dd[0], k1)); r_dirdef(t, dd[0], k1); let r = g_dirdef(t)->0; let a1 = GSdl { dirs: acc.dirs.push(r.0), ..acc };
        acc_step(|x: GDd<'a>| e_dd(x), acc.dirs, r.0, dd);
        assert forall|i: int| 0 <= i < s1.len() implies wf_dd(#[trigger] s1[i]) by { assert(s1[i] == dd[i + 1]); }
        r_sdl(r.1, a1, s1, td, o); assert(t.len() > 0); assert(g_sdl(t, acc) == g_sdl(r.1, a1));
    } else {
        acc_none(|x: GDd<'a>| e_dd(x), acc.dirs, dd);
        if td.len() > 0 {
            let s1 = td.drop_first(); let k1 = p_tds(s1, ko); tds_head(s1, ko); assert(kt == p_td(td[0], k1)); r_td(t, td[0], k1); let r = g_td(t)->0; let a1 = GSdl { types: acc.types.push(r.0), ..acc };
            acc_step(|x: GTd<'a>| e_td(x), acc.types, r.0, td);
            assert forall|i: int| 0 <= i < s1.len() implies wf_td(#[trigger] s1[i]) by { assert(s1[i] == td[i + 1]); }
            r_sdl(r.1, a1, dd, s1, o); assert(t.len() > 0); assert(g_sdl(t, acc) == g_sdl(r.1, a1));
        } else {
            acc_none(|x: GTd<'a>| e_td(x), acc.types, td);
            if o is Some {
                let x = o->0; r_schema(t, x.desc, x.dirs, x.q, x.m, x.s, seq![]); let r = g_schema(t)->0; let a1 = GSdl { schemas: acc.schemas.push(r.0), ..acc };
                head(r.1); assert(r.1.len() == 0); assert(t.len() > 0); assert(g_sdl(t, acc) == g_sdl(r.1, a1)); assert(g_sdl(r.1, a1) == Some(a1)); assert(a1.schemas.last() == r.0);
            }
        }
    }
}
/// the parts of the schema s are definitions of the document d
pub open spec fn from_doc<'a>(s: SchemaDefinition<'a>, d: GSdl<'a>) -> bool {
    &&& (forall|i: int| 0 <= i < tds_v(s.type_definitions.vals()).len() ==> d.types.contains(#[trigger] tds_v(s.type_definitions.vals())[i]))
    &&& (forall|i: int| 0 <= i < dirdefs_v(s.directive_definitions.vals()).len() ==> d.dirs.contains(#[trigger] dirdefs_v(s.directive_definitions.vals())[i]))
    &&& (sdirs(s.directives).len() > 0 ==> exists|i: int| 0 <= i < d.schemas.len() && (#[trigger] d.schemas[i]).dirs == sdirs(s.directives))
}
pub open spec fn s_schema<'a>(s: SchemaDefinition<'a>) -> PSchema<'a> { PSchema { desc: sdesc(s.description), dirs: sdirs(s.directives), q: s.query.name.value@, m: oname(s.mutation), s: oname(s.subscription) } }
/// P05: if the tokens t are a document d and the schema s is made of its definitions, then any tokens u that read as what the
/// printer writes for s are a document too: the same directive definitions and type definitions, in the order of the schema,
/// with the same descriptions, names, arguments, types, defaults, directives, members, values and locations, and either one
/// schema definition with the same description, directives and root operation types, or none where the schema is the one that
/// definitions without a schema definition imply.
pub proof fn round_trip_sdl<'a>(t: Seq<Tok<'a>>, d: GSdl<'a>, s: SchemaDefinition<'a>, u: Seq<Tok<'a>>)
    requires g_sdl(t, g0()) == Some(d), from_doc(s, d), ks(u) == p_sdl(s, seq![])
    ensures g_sdl(u, g0()) is Some,
        e_dds(g_sdl(u, g0())->0.dirs) == e_dds(dirdefs_v(s.directive_definitions.vals())),
        e_tds(g_sdl(u, g0())->0.types) == e_tds(tds_v(s.type_definitions.vals())),
        implied(s) ==> g_sdl(u, g0())->0.schemas.len() == 0,
        !implied(s) ==> g_sdl(u, g0())->0.schemas.len() == 1 && e_schema(g_sdl(u, g0())->0.schemas[0]) == e_psch(s_schema(s))
{
    hide(p_schema); hide(implied);
    w_sdl(t, g0()); let td = tds_v(s.type_definitions.vals()); let dd = dirdefs_v(s.directive_definitions.vals()); let o = if implied(s) { None } else { Some(s_schema(s)) };
    assert forall|i: int| 0 <= i < td.len() implies wf_td(#[trigger] td[i]) by { let j = choose|j: int| 0 <= j < d.types.len() && d.types[j] == td[i]; assert(wf_td(d.types[j])); }
    assert forall|i: int| 0 <= i < dd.len() implies wf_dd(#[trigger] dd[i]) by { let j = choose|j: int| 0 <= j < d.dirs.len() && d.dirs[j] == dd[i]; assert(wf_dd(d.dirs[j])); }
    if sdirs(s.directives).len() > 0 { let i = choose|i: int| 0 <= i < d.schemas.len() && (#[trigger] d.schemas[i]).dirs == sdirs(s.directives); assert(wf_schema(d.schemas[i])); }
    r_sdl(u, g0(), dd, td, o);
    acc_empty(|x: GTd<'a>| e_td(x), td); acc_empty(|x: GDd<'a>| e_dd(x), dd);
}
/// what implied means to a reader: with no schema definition, the root operation types are the types named Query, Mutation and
/// Subscription, where there are such types
pub open spec fn named_type<'a>(s: SchemaDefinition<'a>, n: Seq<char>) -> Option<Seq<char>> { if s.type_definitions.keys().contains(n) { Some(n) } else { None } }
pub proof fn implied_roots<'a>(s: SchemaDefinition<'a>)
    requires implied(s), s.mutation is Some ==> s.type_definitions.keys().contains(oname(s.mutation)->0), s.subscription is Some ==> s.type_definitions.keys().contains(oname(s.subscription)->0)
    ensures s.query.name.value@ == "Query"@, oname(s.mutation) == named_type(s, "Mutation"@), oname(s.subscription) == named_type(s, "Subscription"@), sdesc(s.description) is None, sdirs(s.directives).len() == 0
{ }
