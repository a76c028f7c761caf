// ---- files written ----
// failures met so far
pub open spec fn fault(l: Seq<GoErr>, e: GoErr) -> Seq<GoErr> { if e is Nil { l } else { l.push(e) } }
pub uninterp spec fn cwd() -> S;
pub open spec fn base_dir(dir: S) -> S { if dir.len() == 0 { cwd() } else { dir } }
pub open spec fn path_in(dir: S, c: Config) -> S { if path_abs(c.File) { c.File } else { path_join(Seq::<S>::empty().push(dir).push(c.File)) } }
// the options with their builders registered
pub open spec fn with_builders(o: BuildOptions) -> BuildOptions {
    BuildOptions { extBuilders: reg_builders(o.extBuilders, o.Builders.s), ..o }
}
// the built text, its trailing blanks replaced by one newline
pub open spec fn file_text(c: Config, o: BuildOptions) -> S { trim_right_func(built(c, o), fnc!("unicode.IsSpace")).push(10u8) }
// the files of the first k configs, after those already there
#[verifier::opaque]
pub open spec fn on_disk(l: Seq<(S, S)>, cs: Seq<Config>, d: S, o: BuildOptions, k: int) -> Seq<(S, S)> decreases k {
    if k <= 0 { l } else { on_disk(l, cs, d, o, k - 1).push((path_in(d, cs[k - 1]), file_text(cs[k - 1], o))) }
}
#[verifier::opaque]
pub open spec fn names_on_disk(l: Seq<S>, cs: Seq<Config>, d: S, k: int) -> Seq<S> decreases k {
    if k <= 0 { l } else { names_on_disk(l, cs, d, k - 1).push(path_in(d, cs[k - 1])) }
}
#[verifier::opaque]
pub open spec fn handed_over(l: Seq<(S, S)>, cs: Seq<Config>, o: BuildOptions, k: int) -> Seq<(S, S)> decreases k {
    if k <= 0 { l } else { handed_over(l, cs, o, k - 1).push((cs[k - 1].File, built(cs[k - 1], o))) }
}
#[verifier::opaque]
pub open spec fn names_asked(l: Seq<S>, cs: Seq<Config>, k: int) -> Seq<S> decreases k {
    if k <= 0 { l } else { names_asked(l, cs, k - 1).push(cs[k - 1].File) }
}
pub open spec fn all_wf(cs: Seq<Config>) -> bool { forall|i: int| 0 <= i < cs.len() ==> wfs((#[trigger] cs[i]).Parsed.s) }

pub proof fn lemma_disk(w0: World, cs: Seq<Config>, d: S, o: BuildOptions, k: int)
    ensures k <= 0 ==> on_disk(w0.disk, cs, d, o, k) == w0.disk && names_on_disk(w0.created, cs, d, k) == w0.created,
        k >= 0 ==> on_disk(w0.disk, cs, d, o, k + 1) == on_disk(w0.disk, cs, d, o, k).push((path_in(d, cs[k]), file_text(cs[k], o))),
        k >= 0 ==> names_on_disk(w0.created, cs, d, k + 1) == names_on_disk(w0.created, cs, d, k).push(path_in(d, cs[k])),
{ reveal(on_disk); reveal(names_on_disk); }
pub proof fn lemma_into(w0: World, cs: Seq<Config>, o: BuildOptions, k: int)
    ensures k <= 0 ==> handed_over(w0.disk, cs, o, k) == w0.disk && names_asked(w0.created, cs, k) == w0.created,
        k >= 0 ==> handed_over(w0.disk, cs, o, k + 1) == handed_over(w0.disk, cs, o, k).push((cs[k].File, built(cs[k], o))),
        k >= 0 ==> names_asked(w0.created, cs, k + 1) == names_asked(w0.created, cs, k).push(cs[k].File),
{ reveal(handed_over); reveal(names_asked); }

// building with the options an earlier build left behind gives the same text
pub proof fn settled_options_build_the_same(c: Config, o: BuildOptions)
    ensures built(c, final_options(o)) == built(c, o), final_options(final_options(o)) == final_options(o)
{ if !o.extBuilders.nn && o.Builders.s.len() == 0 { assert(reg_builders(o.extBuilders, o.Builders.s) == o.extBuilders); } }
// on fresh options, registering the builders first makes no difference
pub proof fn files_hold_what_build_writes(c: Config, o: BuildOptions)
    requires !o.extBuilders.nn
    ensures built(c, with_builders(o)) == built(c, o)
{
    let b = with_builders(o);
    if o.Builders.s.len() == 0 { assert(reg_builders(o.extBuilders, o.Builders.s) == o.extBuilders); }
    else { assert(b.extBuilders.nn); }
    assert(final_options(b) == final_options(o));
}
