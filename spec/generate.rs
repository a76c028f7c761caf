// ---- directive tables out of C sources ----
pub uninterp spec fn text_at(p: S) -> S;
pub uninterp spec fn read_err(p: S) -> GoErr;
pub uninterp spec fn re_replace(r: Opq, s: S, t: S) -> S;
pub uninterp spec fn re_all(r: Opq, s: S) -> Sl<Sl<S>>;
pub uninterp spec fn split(s: S, sep: S) -> Seq<S>;
pub uninterp spec fn is_dir(d: Opq) -> bool;

// the Go name of each mask NGINX defines; empty: unknown
pub open spec fn go_mask(n: S) -> S {
    if n == lit!("NGX_MAIL_MAIN_CONF") { lit!("ngxMailMainConf") }
    else if n == lit!("NGX_STREAM_MAIN_CONF") { lit!("ngxStreamMainConf") }
    else if n == lit!("NGX_CONF_TAKE1") { lit!("ngxConfTake1") }
    else if n == lit!("NGX_STREAM_UPS_CONF") { lit!("ngxStreamUpsConf") }
    else if n == lit!("NGX_HTTP_LIF_CONF") { lit!("ngxHTTPLifConf") }
    else if n == lit!("NGX_CONF_TAKE2") { lit!("ngxConfTake2") }
    else if n == lit!("NGX_HTTP_UPS_CONF") { lit!("ngxHTTPUpsConf") }
    else if n == lit!("NGX_CONF_TAKE23") { lit!("ngxConfTake23") }
    else if n == lit!("NGX_CONF_TAKE12") { lit!("ngxConfTake12") }
    else if n == lit!("NGX_HTTP_MAIN_CONF") { lit!("ngxHTTPMainConf") }
    else if n == lit!("NGX_HTTP_LMT_CONF") { lit!("ngxHTTPLmtConf") }
    else if n == lit!("NGX_CONF_TAKE1234") { lit!("ngxConfTake1234") }
    else if n == lit!("NGX_MAIL_SRV_CONF") { lit!("ngxMailSrvConf") }
    else if n == lit!("NGX_CONF_FLAG") { lit!("ngxConfFlag") }
    else if n == lit!("NGX_HTTP_SRV_CONF") { lit!("ngxHTTPSrvConf") }
    else if n == lit!("NGX_CONF_1MORE") { lit!("ngxConf1More") }
    else if n == lit!("NGX_ANY_CONF") { lit!("ngxAnyConf") }
    else if n == lit!("NGX_CONF_TAKE123") { lit!("ngxConfTake123") }
    else if n == lit!("NGX_MAIN_CONF") { lit!("ngxMainConf") }
    else if n == lit!("NGX_CONF_NOARGS") { lit!("ngxConfNoArgs") }
    else if n == lit!("NGX_CONF_2MORE") { lit!("ngxConf2More") }
    else if n == lit!("NGX_CONF_TAKE3") { lit!("ngxConfTake3") }
    else if n == lit!("NGX_HTTP_SIF_CONF") { lit!("ngxHTTPSifConf") }
    else if n == lit!("NGX_EVENT_CONF") { lit!("ngxEventConf") }
    else if n == lit!("NGX_CONF_BLOCK") { lit!("ngxConfBlock") }
    else if n == lit!("NGX_HTTP_LOC_CONF") { lit!("ngxHTTPLocConf") }
    else if n == lit!("NGX_STREAM_SRV_CONF") { lit!("ngxStreamSrvConf") }
    else if n == lit!("NGX_DIRECT_CONF") { lit!("ngxDirectConf") }
    else if n == lit!("NGX_CONF_TAKE13") { lit!("ngxConfTake13") }
    else if n == lit!("NGX_CONF_ANY") { lit!("ngxConfAny") }
    else if n == lit!("NGX_CONF_TAKE4") { lit!("ngxConfTake4") }
    else if n == lit!("NGX_CONF_TAKE5") { lit!("ngxConfTake5") }
    else if n == lit!("NGX_CONF_TAKE6") { lit!("ngxConfTake6") }
    else if n == lit!("NGX_CONF_TAKE7") { lit!("ngxConfTake7") }
    else { sempty() }
}
pub open spec fn known_mask(n: S) -> bool { go_mask(trim_space(n)).len() > 0 }
// the code's table of mask names is that one
pub proof fn lemma_mask_table(n: S)
    ensures mp_get(glob!("generator.ngxVarNameToGo"), n, sempty()) == go_mask(n),
        glob!("generator.ngxVarNameToGo").m.contains_key(n) == (go_mask(n).len() > 0),
{ lits_ax(); }

// one definition: its name and the masks of its bit field
pub type Def = (S, Sl<S>);
pub open spec fn mask_names(f: S) -> Seq<S> { split(f, lit!("|")) }
pub open spec fn go_names(f: Seq<S>) -> Seq<S> { Seq::new(f.len(), |i: int| go_mask(trim_space(f[i]))) }
pub open spec fn names_known(f: Seq<S>) -> bool { forall|i: int| 0 <= i < f.len() ==> known_mask(#[trigger] f[i]) }
pub open spec fn def_of(m: Sl<S>) -> Def { (trim_space(m.s[1]), sl_of(go_names(mask_names(m.s[2])))) }
// the definitions of the first k matches, after those in acc
#[verifier::opaque]
pub open spec fn defs_of(acc: Seq<Def>, ms: Seq<Sl<S>>, k: int) -> Seq<Def> decreases k {
    if k <= 0 { acc } else { defs_of(acc, ms, k - 1).push(def_of(ms[k - 1])) }
}
pub open spec fn masks_known(ms: Seq<Sl<S>>, k: int) -> bool { forall|i: int| 0 <= i < k ==> names_known(mask_names((#[trigger] ms[i]).s[2])) }
pub open spec fn matches_in(b: Sl<S>) -> Seq<Sl<S>> { re_all(re_compile(lit!("ngx_string\\(\"(.*?)\"\\).*?,(.*?),")), b.s[2]).s }
#[verifier::opaque]
pub open spec fn defs_in(bs: Seq<Sl<S>>, k: int) -> Seq<Def> decreases k {
    if k <= 0 { Seq::empty() } else { defs_of(defs_in(bs, k - 1), matches_in(bs[k - 1]), matches_in(bs[k - 1]).len() as int) }
}
pub open spec fn all_known(bs: Seq<Sl<S>>, k: int) -> bool { forall|i: int| 0 <= i < k ==> masks_known(matches_in(#[trigger] bs[i]), matches_in(bs[i]).len() as int) }
// a source without comments and line ends
pub open spec fn bare(t: S) -> S {
    replace_all(replace_all(re_replace(re_compile(lit!("//.*|/\\*[\\s\\S]*?\\*/")), t, sempty()), lit!("\r\n"), sempty()), lit!("\n"), sempty())
}
pub open spec fn blocks(t: S) -> Seq<Sl<S>> { re_all(re_compile(lit!("ngx_command_t\\s+(\\w+)\\[\\]\\s*=\\s*{(.*?)}\\s*;")), bare(t)).s }
pub open spec fn file_defs(p: S) -> Seq<Def> { defs_in(blocks(text_at(p)), blocks(text_at(p)).len() as int) }
pub open spec fn file_ok(p: S) -> bool { read_err(p) is Nil && all_known(blocks(text_at(p)), blocks(text_at(p)).len() as int) }

// all masks defined for d, in the order of the definitions
pub open spec fn masks_for(ds: Seq<Def>, d: S) -> Seq<Sl<S>> decreases ds.len() {
    if ds.len() == 0 { Seq::empty() } else if ds.last().0 == d { masks_for(ds.drop_last(), d).push(ds.last().1) } else { masks_for(ds.drop_last(), d) }
}
// the table holds exactly these definitions
#[verifier::opaque]
pub open spec fn has_defs(m: Mp<S, Sl<Sl<S>>>, ds: Seq<Def>) -> bool {
    forall|d: S| (#[trigger] m.m.contains_key(d) <==> masks_for(ds, d).len() > 0) && (m.m.contains_key(d) ==> m.m[d].s == masks_for(ds, d))
}

// the C and C++ files of a tree, in the order of the walk
pub open spec fn is_source(e: WalkEntry) -> bool { !is_dir(e.d) && (has_suffix(e.path, lit!(".c")) || has_suffix(e.path, lit!(".cpp"))) }
#[verifier::opaque]
pub open spec fn tree_defs(es: Seq<WalkEntry>, k: int) -> Seq<Def> decreases k {
    if k <= 0 { Seq::empty() } else if is_source(es[k - 1]) { tree_defs(es, k - 1) + file_defs(es[k - 1].path) } else { tree_defs(es, k - 1) }
}
pub open spec fn entry_ok(e: WalkEntry) -> bool { e.err is Nil && (is_source(e) ==> file_ok(e.path)) }
pub open spec fn tree_ok(es: Seq<WalkEntry>, k: int) -> bool { forall|i: int| 0 <= i < k ==> entry_ok(#[trigger] es[i]) }

// what the generated table has to hold
pub open spec fn kept(c: GenerateConfig, d: S) -> bool { !c.Filter.m.contains_key(d) }
pub open spec fn has_override(c: GenerateConfig, d: S) -> bool { c.Override.nn && c.Override.m.contains_key(d) }
pub open spec fn selected(m: Mp<S, Sl<Sl<S>>>, ds: Seq<Def>, c: GenerateConfig) -> bool {
    forall|d: S| (#[trigger] m.m.contains_key(d) <==> masks_for(ds, d).len() > 0 && kept(c, d))
        && (m.m.contains_key(d) ==> (if has_override(c, d) { m.m[d] == c.Override.m[d] } else { m.m[d].s == masks_for(ds, d) }))
}
pub open spec fn rendered(m: Mp<S, Sl<Sl<S>>>, c: GenerateConfig) -> Opq {
    to_opq(supportFileTmplStruct { Directive2Masks: m, MapVariableName: c.DirectiveMapName, MatchFnName: c.MatchFuncName, MatchFnComment: c.MatchFuncComment })
}

// ---- lemmas ----
pub open spec fn names_so_far(a: Seq<S>, f: Seq<S>, k: int) -> bool {
    a.len() == f.len() && (forall|i: int| 0 <= i < k ==> a[i] == go_mask(trim_space(f[i])) && known_mask(#[trigger] f[i])) && (forall|i: int| k <= i < f.len() ==> a[i] == f[i])
}
pub proof fn lemma_defs_of(acc: Seq<Def>, ms: Seq<Sl<S>>, k: int)
    ensures defs_of(acc, ms, 0) == acc, k >= 0 ==> defs_of(acc, ms, k + 1) == defs_of(acc, ms, k).push(def_of(ms[k]))
{ reveal(defs_of); }
pub proof fn lemma_defs_in(bs: Seq<Sl<S>>, k: int)
    ensures defs_in(bs, 0) == Seq::<Def>::empty(), k >= 0 ==> defs_in(bs, k + 1) == defs_of(defs_in(bs, k), matches_in(bs[k]), matches_in(bs[k]).len() as int),
        defs_of(defs_in(bs, k), matches_in(bs[k]), 0) == defs_in(bs, k),
        has_defs(Mp { m: Map::<S, Sl<Sl<S>>>::empty(), nn: true }, Seq::<Def>::empty())
{ reveal(defs_in); reveal(defs_of); reveal(has_defs); }
pub proof fn lemma_add_def(m: Mp<S, Sl<Sl<S>>>, ds: Seq<Def>, n: S, x: Sl<S>)
    requires has_defs(m, ds)
    ensures has_defs(Mp { m: m.m.insert(n, sl_push(mp_get(m, n, sl_nil::<Sl<S>>()), x)), ..m }, ds.push((n, x)))
{
    reveal(has_defs);
    let e = ds.push((n, x)); let r = Mp { m: m.m.insert(n, sl_push(mp_get(m, n, sl_nil::<Sl<S>>()), x)), ..m };
    assert(e.drop_last() =~= ds);
    assert forall|d: S| (#[trigger] r.m.contains_key(d) <==> masks_for(e, d).len() > 0) && (r.m.contains_key(d) ==> r.m[d].s == masks_for(e, d)) by {
        assert(m.m.contains_key(d) <==> masks_for(ds, d).len() > 0);
        if !m.m.contains_key(d) { assert(masks_for(ds, d) =~= Seq::<Sl<S>>::empty()); }
    }
}
pub open spec fn before(ks: Seq<S>, k: int, d: S) -> bool { ks.subrange(0, k).contains(d) }
// what merging the first k entries of a file's table gives
pub open spec fn merged(m: Mp<S, Sl<Sl<S>>>, m0: Mp<S, Sl<Sl<S>>>, f: Mp<S, Sl<Sl<S>>>, ks: Seq<S>, k: int) -> bool {
    forall|d: S| (#[trigger] m.m.contains_key(d) <==> m0.m.contains_key(d) || before(ks, k, d)) && (m.m.contains_key(d) ==>
        m.m[d].s == mp_get(m0, d, sl_nil()).s + (if before(ks, k, d) { f.m[d].s } else { Seq::empty() }))
}
pub open spec fn filtered(m: Mp<S, Sl<Sl<S>>>, m0: Mp<S, Sl<Sl<S>>>, f: Mp<S, ()>, ks: Seq<S>, k: int) -> bool {
    forall|d: S| (#[trigger] m.m.contains_key(d) <==> m0.m.contains_key(d) && !(before(ks, k, d) && f.m.contains_key(d))) && (m.m.contains_key(d) ==> m.m[d] == m0.m[d])
}
pub open spec fn overridden(m: Mp<S, Sl<Sl<S>>>, m0: Mp<S, Sl<Sl<S>>>, o: Mp<S, Sl<Sl<S>>>, ks: Seq<S>, k: int) -> bool {
    forall|d: S| (#[trigger] m.m.contains_key(d) <==> m0.m.contains_key(d)) && (m.m.contains_key(d) ==> m.m[d] == (if before(ks, k, d) && o.m.contains_key(d) { o.m[d] } else { m0.m[d] }))
}
pub proof fn lemma_before(ks: Seq<S>, k: int)
    requires 0 <= k < ks.len(), ks.no_duplicates()
    ensures !before(ks, k, ks[k]), forall|d: S| #[trigger] before(ks, k + 1, d) == (before(ks, k, d) || d == ks[k])
{
    if before(ks, k, ks[k]) { let i = choose|i: int| 0 <= i < k && ks.subrange(0, k)[i] == ks[k]; assert(ks[i] == ks[k]); }
    assert(ks.subrange(0, k + 1) =~= ks.subrange(0, k).push(ks[k]));
    assert forall|d: S| #[trigger] before(ks, k + 1, d) == (before(ks, k, d) || d == ks[k]) by { lemma_push_contains(ks.subrange(0, k), ks[k], d); }
}
pub proof fn lemma_before_all(ks: Seq<S>)
    ensures forall|d: S| !#[trigger] before(ks, 0, d), forall|d: S| #[trigger] before(ks, ks.len() as int, d) == ks.contains(d)
{ assert(ks.subrange(0, ks.len() as int) =~= ks); }
proof fn lemma_masks_cat(a: Seq<Def>, b: Seq<Def>, d: S)
    ensures masks_for(a + b, d) == masks_for(a, d) + masks_for(b, d)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(masks_for(a, d) + masks_for(b, d) =~= masks_for(a, d)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_masks_cat(a, b.drop_last(), d); assert(masks_for(a, d) + masks_for(b, d) =~= (if b.last().0 == d { (masks_for(a, d) + masks_for(b.drop_last(), d)).push(b.last().1) } else { masks_for(a, d) + masks_for(b.drop_last(), d) })); }
}
pub proof fn lemma_merged(m: Mp<S, Sl<Sl<S>>>, m0: Mp<S, Sl<Sl<S>>>, f: Mp<S, Sl<Sl<S>>>, ks: Seq<S>, a: Seq<Def>, b: Seq<Def>)
    requires has_defs(m0, a), has_defs(f, b), map_enum(f, ks), merged(m, m0, f, ks, ks.len() as int)
    ensures has_defs(m, a + b)
{
    reveal(has_defs); lemma_before_all(ks);
    assert forall|d: S| (#[trigger] m.m.contains_key(d) <==> masks_for(a + b, d).len() > 0) && (m.m.contains_key(d) ==> m.m[d].s == masks_for(a + b, d)) by {
        lemma_masks_cat(a, b, d);
        assert(f.m.contains_key(d) <==> masks_for(b, d).len() > 0);
        assert(m0.m.contains_key(d) <==> masks_for(a, d).len() > 0);
        assert(ks.contains(d) <==> f.m.contains_key(d)) by { if ks.contains(d) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == d; assert(f.m.contains_key(ks[i])); } }
        if !m0.m.contains_key(d) { assert(masks_for(a, d) =~= Seq::<Sl<S>>::empty()); }
        if !f.m.contains_key(d) { assert(masks_for(b, d) =~= Seq::<Sl<S>>::empty()); }
        assert(m.m.contains_key(d) ==> m.m[d].s =~= masks_for(a, d) + masks_for(b, d));
    }
}
pub proof fn lemma_tree(es: Seq<WalkEntry>, k: int)
    ensures tree_defs(es, 0) == Seq::<Def>::empty(),
        k >= 0 ==> tree_defs(es, k + 1) == (if is_source(es[k]) { tree_defs(es, k) + file_defs(es[k].path) } else { tree_defs(es, k) }),
        has_defs(Mp { m: Map::<S, Sl<Sl<S>>>::empty(), nn: true }, Seq::<Def>::empty())
{ reveal(tree_defs); reveal(has_defs); }
// a table is empty exactly when nothing was defined
pub proof fn lemma_empty_table(m: Mp<S, Sl<Sl<S>>>, ds: Seq<Def>)
    requires has_defs(m, ds)
    ensures (m.m.dom().len() == 0) == (ds.len() == 0)
{
    reveal(has_defs);
    if ds.len() > 0 { assert(masks_for(ds, ds.last().0).len() > 0); assert(m.m.contains_key(ds.last().0)); assert(m.m.dom().contains(ds.last().0)); }
    else { assert forall|d: S| !m.m.dom().contains(d) by { assert(m.m.contains_key(d) <==> masks_for(ds, d).len() > 0); } assert(m.m.dom() =~= Set::empty()); }
}

pub proof fn lemma_keys(m: Mp<S, Sl<Sl<S>>>, ks: Seq<S>)
    requires map_enum(m, ks)
    ensures forall|d: S| #[trigger] ks.contains(d) == m.m.contains_key(d)
{ assert forall|d: S| #[trigger] ks.contains(d) == m.m.contains_key(d) by { if ks.contains(d) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == d; assert(m.m.contains_key(ks[i])); } } }

pub proof fn lemma_no_filter(f: Mp<S, ()>)
    ensures f.m.dom().len() == 0 ==> forall|d: S| !#[trigger] f.m.contains_key(d)
{ if f.m.dom().len() == 0 { f.m.dom().lemma_len0_is_empty(); assert forall|d: S| !#[trigger] f.m.contains_key(d) by { assert(!f.m.dom().contains(d)); } } }

// ---- overrides given on the command line: name:mask|mask,mask|mask ----
pub uninterp spec fn cut_before(s: S, sep: S) -> S;
pub uninterp spec fn cut_after(s: S, sep: S) -> S;
pub uninterp spec fn cut_found(s: S, sep: S) -> bool;
pub open spec fn override_name(v: S) -> S { trim_space(cut_before(v, lit!(":"))) }
pub open spec fn override_lists(v: S) -> Seq<S> { split(trim_space(cut_after(v, lit!(":"))), lit!(",")) }
pub open spec fn trimmed(f: Seq<S>) -> Seq<S> { Seq::new(f.len(), |i: int| trim_space(f[i])) }
pub open spec fn none_empty(f: Seq<S>) -> bool { forall|i: int| 0 <= i < f.len() ==> trim_space(#[trigger] f[i]).len() > 0 }
pub open spec fn lists_ok(l: Seq<S>, k: int) -> bool { forall|i: int| 0 <= i < k ==> none_empty(mask_names(#[trigger] l[i])) }
pub open spec fn override_ok(v: S) -> bool {
    cut_found(v, lit!(":")) && override_name(v).len() > 0 && trim_space(cut_after(v, lit!(":"))).len() > 0 && lists_ok(override_lists(v), override_lists(v).len() as int)
}
#[verifier::opaque]
pub open spec fn masks_to(l: Seq<S>, k: int) -> Seq<Sl<S>> decreases k { if k <= 0 { Seq::empty() } else { masks_to(l, k - 1).push(sl_of(trimmed(mask_names(l[k - 1])))) } }
pub open spec fn override_masks(v: S) -> Seq<Sl<S>> { masks_to(override_lists(v), override_lists(v).len() as int) }
pub proof fn lemma_masks_to(l: Seq<S>, k: int)
    ensures masks_to(l, 0) == Seq::<Sl<S>>::empty(), k >= 0 ==> masks_to(l, k + 1) == masks_to(l, k).push(sl_of(trimmed(mask_names(l[k]))))
{ reveal(masks_to); }
pub open spec fn trimmed_to(a: Seq<S>, f: Seq<S>, k: int) -> bool {
    a.len() == f.len() && forall|i: int| 0 <= i < k ==> a[i] == trim_space(f[i]) && trim_space(#[trigger] f[i]).len() > 0
}

pub uninterp spec fn json_err(d: S) -> GoErr;
pub uninterp spec fn json_list(d: S) -> Sl<S>;

// every definition of a directive is among the masks of that directive, and nothing else is
pub proof fn every_definition_counts(ds: Seq<Def>, i: int)
    requires 0 <= i < ds.len()
    ensures masks_for(ds, ds[i].0).contains(ds[i].1)
    decreases ds.len()
{
    let n = ds[i].0; let p = masks_for(ds.drop_last(), n);
    if i == ds.len() - 1 { assert(masks_for(ds, n) == p.push(ds.last().1)); assert(p.push(ds.last().1)[p.len() as int] == ds.last().1); }
    else { every_definition_counts(ds.drop_last(), i); let j = choose|j: int| 0 <= j < p.len() && p[j] == ds[i].1; if ds.last().0 == n { assert(p.push(ds.last().1)[j] == p[j]); } }
}
pub proof fn every_mask_was_defined(ds: Seq<Def>, d: S, x: Sl<S>)
    requires masks_for(ds, d).contains(x)
    ensures ds.contains((d, x))
    decreases ds.len()
{
    if ds.len() > 0 {
        let p = masks_for(ds.drop_last(), d); let q = ds.drop_last();
        let j = choose|j: int| 0 <= j < masks_for(ds, d).len() && masks_for(ds, d)[j] == x;
        if ds.last().0 == d && j == p.len() { assert(ds.last() == (d, x)); assert(ds[ds.len() - 1] == (d, x)); }
        else { assert(p[j] == x); every_mask_was_defined(q, d, x); let i = choose|i: int| 0 <= i < q.len() && q[i] == (d, x); assert(ds[i] == (d, x)); }
    }
}
