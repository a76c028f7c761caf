// ---- what Parse combines has finite includes ----
pub open spec fn walk(p: parser, all: Seq<S>, w: Seq<S>, from: S, n: int) -> bool {
    &&& w.len() == n && n > 0 && w[0] == from
    &&& forall|i: int| 0 <= i < w.len() ==> all.contains(#[trigger] w[i])
    &&& forall|i: int, j: int| 0 <= i && j == i + 1 && j < w.len() ==> is_edge(p, #[trigger] w[i], #[trigger] w[j])
}
// a chain of includes that is too long is a walk through the files
proof fn lemma_chain_walk(pay: Payload, pr: parser, all: Seq<S>, from: S, ctx: Seq<S>, b: Seq<Option<Directive>>, n: nat) -> (w: Seq<S>)
    requires !chains(pay, b, n), all_resolved(pr, from, ctx, all, b), all.contains(from), all == file_names(pay.Config.s), forall|i: int| 0 <= i < pay.Config.s.len() ==> config_ok(pr, all, #[trigger] pay.Config.s[i])
    ensures walk(pr, all, w, from, n as int + 2)
    decreases n, b
{
    let i = choose|i: int| 0 <= i < b.len() && !chain1(pay, #[trigger] b[i], n);
    assert(resolved(pr, from, ctx, all, b[i]));
    let d = b[i]->0;
    if !chains(pay, d.Block.s, n) { lemma_chain_walk(pay, pr, all, from, enter_ctx(d.Directive, ctx), d.Block.s, n) }
    else {
        let j = choose|j: int| 0 <= j < d.Includes.s.len() && has_conf(pay, #[trigger] d.Includes.s[j]) && !(n > 0 && chains(pay, pay.Config.s[d.Includes.s[j]].Parsed.s, (n - 1) as nat));
        let x = d.Includes.s[j]; let to = pay.Config.s[x].File;
        let names = inc_names(pr, from, d, ctx).names;
        assert(points_to(d.Includes.s, names, all) && edges_to(pr, from, names));
        assert(all[x] == names[j]); assert(all[x] == to);
        assert(is_edge(pr, from, names[j]));
        assert(all.contains(to));
        if n == 0 {
            let w = seq![from, to];
            assert(walk(pr, all, w, from, 2));
            w
        } else {
            assert(config_ok(pr, all, pay.Config.s[x]));
            let c2 = choose|ctx: Seq<S>| all_resolved(pr, to, ctx, all, pay.Config.s[x].Parsed.s);
            let v = lemma_chain_walk(pay, pr, all, to, c2, pay.Config.s[x].Parsed.s, (n - 1) as nat);
            let w = seq![from] + v;
            assert forall|i: int| 0 <= i < w.len() implies all.contains(#[trigger] w[i]) by { if i > 0 { assert(w[i] == v[i - 1]); } }
            assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < w.len() implies is_edge(pr, #[trigger] w[i], #[trigger] w[j]) by { assert(w[j] == v[j - 1]); if i > 0 { assert(w[i] == v[i - 1]); } }
            w
        }
    }
}
proof fn lemma_long_walk(p: parser, all: Seq<S>, w: Seq<S>, from: S)
    requires walk(p, all, w, from, all.len() as int + 2)
    ensures cyclic(p)
{
    if w.no_duplicates() {
        assert forall|i: int| 0 <= i < w.len() implies all.to_set().contains(#[trigger] w[i]) by { assert(all.contains(w[i])); }
        lemma_distinct_len(w, all.to_set());
        all.lemma_cardinality_of_set();
        assert(false);
    }
    let (a, b) = choose|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && i != j && w[i] == w[j];
    let i = if a < b { a } else { b }; let j = if a < b { b } else { a };
    let c = w.subrange(i, j + 1);
    assert forall|x: int, y: int| 0 <= x && y == x + 1 && y < c.len() implies is_edge(p, #[trigger] c[x], #[trigger] c[y]) by { assert(c[x] == w[i + x]); assert(c[y] == w[i + y]); }
    assert(closed_walk(p, c));
}
// C10: without a cycle, combining ends
pub proof fn no_cycle_no_endless_include(filename: S, o: ParseOptions, cbs: Seq<(GoErr, Opq)>, n: int)
    requires n >= 0, ({ let s = f_run(f_init(filename, o, cbs), n); !s.stop && s.pr.includes.s.len() == 0 && !cyclic(s.pr) })
    ensures ({ let s = f_run(f_init(filename, o, cbs), n); s.pay.Config.s.len() > 0 && finite_includes(s.pay, s.pay.Config.s[0].Parsed.s) })
{
    every_include_is_resolved(filename, o, cbs, n);
    let s = f_run(f_init(filename, o, cbs), n); let files = s.pay.Config.s; let all = file_names(files);
    assert(config_ok(s.pr, all, files[0]));
    let ctx = choose|ctx: Seq<S>| all_resolved(s.pr, files[0].File, ctx, all, files[0].Parsed.s);
    assert(all[0] == files[0].File); assert(all.contains(files[0].File));
    if !chains(s.pay, files[0].Parsed.s, all.len()) {
        let w = lemma_chain_walk(s.pay, s.pr, all, files[0].File, ctx, files[0].Parsed.s, all.len());
        lemma_long_walk(s.pr, all, w, files[0].File);
    }
    assert(finite_includes(s.pay, files[0].Parsed.s));
}
