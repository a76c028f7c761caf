// ---- includes ----
pub open spec fn paths(q: Seq<fileCtx>) -> Seq<S> { q.map_values(|f: fileCtx| f.path) }
pub open spec fn file_names(c: Seq<Config>) -> Seq<S> { c.map_values(|f: Config| f.File) }
// all: the files parsed or waiting, in the order of their indexes
pub open spec fn indexed(pr: parser, all: Seq<S>) -> bool {
    &&& pr.included.m.dom().len() == all.len()
    &&& forall|i: int| 0 <= i < all.len() ==> pr.included.m.contains_key(#[trigger] all[i]) && pr.included.m[all[i]] == i
    &&& forall|n: S| #[trigger] pr.included.m.contains_key(n) ==> 0 <= pr.included.m[n] < all.len() && all[pr.included.m[n]] == n
}
pub open spec fn prefix(a: Seq<S>, b: Seq<S>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == b[i] }
// the indexes a point to the files names
pub open spec fn points_to(a: Seq<int>, names: Seq<S>, all: Seq<S>) -> bool {
    a.len() == names.len() && forall|j: int| 0 <= j < a.len() ==> 0 <= #[trigger] a[j] < all.len() && all[a[j]] == names[j]
}
pub open spec fn edges_kept(a: parser, b: parser) -> bool { forall|x: S, y: S| is_edge(a, x, y) ==> #[trigger] is_edge(b, x, y) }
// from a to b: files and edges are only added
pub open spec fn same_base(a: parser, b: parser) -> bool { a.options == b.options && a.configDir == b.configDir && edges_kept(a, b) }
// the include graph leads from fname to all of names
pub open spec fn edges_to(pr: parser, fname: S, names: Seq<S>) -> bool { forall|j: int| 0 <= j < names.len() ==> is_edge(pr, fname, #[trigger] names[j]) }
proof fn lemma_edges_to(pr: parser, q: parser, fname: S, names: Seq<S>)
    requires edges_to(pr, fname, names), edges_kept(pr, q)
    ensures edges_to(q, fname, names)
{ }
proof fn lemma_edge_kept(pr: parser, from: S, name: S, ctx: Sl<S>)
    ensures edges_kept(pr, add_inc(pr, from, name, ctx)), is_edge(add_inc(pr, from, name, ctx), from, name)
{
    let q = add_inc(pr, from, name, ctx); let l = mp_get(pr.includeEdges, from, sl_nil::<S>());
    lemma_push_contains(l.s, name, name);
    assert(mp_get(q.includeEdges, from, sl_nil::<S>()).s =~= l.s.push(name));
    assert forall|x: S, y: S| is_edge(pr, x, y) implies #[trigger] is_edge(q, x, y) by {
        if x == from { lemma_push_contains(l.s, name, y); } else { assert(mp_get(q.includeEdges, x, sl_nil::<S>()) == mp_get(pr.includeEdges, x, sl_nil::<S>())); }
    }
}

proof fn lemma_add_inc(pr: parser, from: S, name: S, ctx: Sl<S>, done: Seq<S>)
    requires indexed(pr, done + paths(pr.includes.s))
    ensures ({
        let q = add_inc(pr, from, name, ctx); let a = done + paths(pr.includes.s); let b = done + paths(q.includes.s);
        indexed(q, b) && prefix(a, b) && 0 <= mp_get(q.included, name, 0int) < b.len() && b[mp_get(q.included, name, 0int)] == name && same_base(pr, q)
    })
{
    lemma_edge_kept(pr, from, name, ctx);
    let q = add_inc(pr, from, name, ctx); let a = done + paths(pr.includes.s); let b = done + paths(q.includes.s);
    if !pr.included.m.contains_key(name) {
        assert(q.includes.s == pr.includes.s.push(fileCtx { path: name, ctx: ctx }));
        assert(paths(q.includes.s) =~= paths(pr.includes.s).push(name));
        assert(b =~= a.push(name));
        assert(q.included.m.dom() =~= pr.included.m.dom().insert(name));
        assert forall|i: int| 0 <= i < b.len() implies q.included.m.contains_key(#[trigger] b[i]) && q.included.m[b[i]] == i by {
            if i < a.len() { assert(b[i] == a[i]); assert(pr.included.m.contains_key(a[i])); }
        }
        assert forall|n: S| #[trigger] q.included.m.contains_key(n) implies 0 <= q.included.m[n] < b.len() && b[q.included.m[n]] == n by {
            if n != name { assert(pr.included.m.contains_key(n)); }
        }
    }
}
proof fn lemma_add_incs(pr: parser, from: S, names: Seq<S>, ctx: Sl<S>, k: int, done: Seq<S>)
    requires indexed(pr, done + paths(pr.includes.s)), 0 <= k <= names.len()
    ensures ({
        let q = add_incs(pr, from, names, ctx, k); let b = done + paths(q.includes.s); let l = inc_list(pr, from, names, ctx, sl_nil(), k);
        indexed(q, b) && prefix(done + paths(pr.includes.s), b) && points_to(l.s, names.subrange(0, k), b) && same_base(pr, q) && edges_to(q, from, names.subrange(0, k))
    })
    decreases k
{
    let q = add_incs(pr, from, names, ctx, k);
    if k > 0 {
        lemma_add_incs(pr, from, names, ctx, k - 1, done);
        lemma_incs(pr, from, names, ctx, sl_nil(), k - 1);
        let p = add_incs(pr, from, names, ctx, k - 1);
        lemma_add_inc(p, from, names[k - 1], ctx, done); lemma_edge_kept(p, from, names[k - 1], ctx);
        let l = inc_list(pr, from, names, ctx, sl_nil(), k); let l1 = inc_list(pr, from, names, ctx, sl_nil(), k - 1);
        assert(names.subrange(0, k) =~= names.subrange(0, k - 1).push(names[k - 1]));
        let a = done + paths(p.includes.s); let b = done + paths(q.includes.s);
        assert forall|j: int| 0 <= j < l.s.len() implies 0 <= #[trigger] l.s[j] < b.len() && b[l.s[j]] == names.subrange(0, k)[j] by {
            if j < k - 1 { assert(l.s[j] == l1.s[j]); assert(a[l1.s[j]] == b[l1.s[j]]); }
        }
    }
}
// every include in the tree a points, in order, to the files it names, all being the files of the parse
pub open spec fn resolved(pr: parser, fname: S, ctx: Seq<S>, all: Seq<S>, a: Option<Directive>) -> bool decreases a, 0nat {
    a matches Some(d) && all_resolved(pr, fname, enter_ctx(d.Directive, ctx), all, d.Block.s) && (
        if d.Directive == lit!("include") && d.Comment is None && !d.IsMapBlockParameter && !opts(pr).SingleFile { d.Args.s.len() > 0 && points_to(d.Includes.s, inc_names(pr, fname, d, ctx).names, all) && edges_to(pr, fname, inc_names(pr, fname, d, ctx).names) }
        else { d.Includes.s.len() == 0 })
}
pub open spec fn all_resolved(pr: parser, fname: S, ctx: Seq<S>, all: Seq<S>, list: Seq<Option<Directive>>) -> bool decreases list, list.len() + 1 {
    forall|i: int| 0 <= i < list.len() ==> resolved(pr, fname, ctx, all, #[trigger] list[i])
}
proof fn lemma_points(a: Seq<int>, names: Seq<S>, all: Seq<S>, more: Seq<S>)
    requires points_to(a, names, all), prefix(all, more)
    ensures points_to(a, names, more)
{ assert forall|j: int| 0 <= j < a.len() implies 0 <= #[trigger] a[j] < more.len() && more[a[j]] == names[j] by { assert(all[a[j]] == more[a[j]]); } }
proof fn lemma_resolved_more(pr: parser, pr2: parser, fname: S, ctx: Seq<S>, all: Seq<S>, more: Seq<S>, a: Option<Directive>)
    requires resolved(pr, fname, ctx, all, a), prefix(all, more), same_base(pr, pr2)
    ensures resolved(pr2, fname, ctx, more, a)
    decreases a
{
    let d = a->0; let c = enter_ctx(d.Directive, ctx);
    assert forall|i: int| 0 <= i < d.Block.s.len() implies resolved(pr2, fname, c, more, #[trigger] d.Block.s[i]) by { lemma_resolved_more(pr, pr2, fname, c, all, more, d.Block.s[i]); }
    assert(inc_names(pr, fname, d, ctx).names == inc_names(pr2, fname, d, ctx).names);
    if points_to(d.Includes.s, inc_names(pr, fname, d, ctx).names, all) { lemma_points(d.Includes.s, inc_names(pr, fname, d, ctx).names, all, more); }
}
proof fn lemma_all_more(pr: parser, pr2: parser, fname: S, ctx: Seq<S>, all: Seq<S>, more: Seq<S>, list: Seq<Option<Directive>>)
    requires all_resolved(pr, fname, ctx, all, list), prefix(all, more), same_base(pr, pr2)
    ensures all_resolved(pr2, fname, ctx, more, list)
{ assert forall|i: int| 0 <= i < list.len() implies resolved(pr2, fname, ctx, more, #[trigger] list[i]) by { lemma_resolved_more(pr, pr2, fname, ctx, all, more, list[i]); } }
proof fn lemma_res_push(pr: parser, fname: S, ctx: Seq<S>, all: Seq<S>, list: Seq<Option<Directive>>, d: Directive)
    requires all_resolved(pr, fname, ctx, all, list), resolved(pr, fname, ctx, all, Some(d))
    ensures all_resolved(pr, fname, ctx, all, list.push(Some(d)))
{
    let b = list.push(Some(d));
    assert forall|i: int| 0 <= i < b.len() implies resolved(pr, fname, ctx, all, #[trigger] b[i]) by { if i < list.len() { assert(b[i] == list[i]); } }
}
proof fn lemma_res_comments(pr: parser, fname: S, ctx: Seq<S>, all: Seq<S>, list: Seq<Option<Directive>>, cms: Seq<S>, k: int, line: int, tag: S)
    requires all_resolved(pr, fname, ctx, all, list), k <= cms.len()
    ensures all_resolved(pr, fname, ctx, all, with_comments(list, cms, k, line, tag))
    decreases k
{
    if k > 0 {
        lemma_res_comments(pr, fname, ctx, all, list, cms, k - 1, line, tag);
        let c = a_comment(cms[k - 1], line, tag);
        lemma_res_push(pr, fname, ctx, all, with_comments(list, cms, k - 1, line, tag), c);
    }
}
pub open spec fn files_of(pr: parser, done: Seq<S>) -> Seq<S> { done + paths(pr.includes.s) }
proof fn lemma_prefix(a: Seq<S>, b: Seq<S>, c: Seq<S>) requires prefix(a, b), prefix(b, c) ensures prefix(a, c)
{ assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == c[i] by { assert(a[i] == b[i]); } }
pub open spec fn inc_ok(a: PS, b: PS, done: Seq<S>) -> bool {
    indexed(b.pr, files_of(b.pr, done)) && prefix(files_of(a.pr, done), files_of(b.pr, done)) && same_base(a.pr, b.pr) && a.cfg.File == b.cfg.File
}
proof fn lemma_inc_directive(st: PS, d: Directive, ctx: Sl<S>, done: Seq<S>)
    requires indexed(st.pr, files_of(st.pr, done)), d.Includes == sl_nil::<int>(), d.Comment is None, !d.IsMapBlockParameter
    ensures ({
        let r = p_include(st, d, ctx);
        inc_ok(st, r.st, done) && (r.err is Nil ==> r.d == (Directive { Includes: r.d.Includes, ..d }) && (
            if d.Directive == lit!("include") && !opts(st.pr).SingleFile { d.Args.s.len() > 0 && points_to(r.d.Includes.s, inc_names(st.pr, st.cfg.File, d, ctx.s).names, files_of(r.st.pr, done)) && edges_to(r.st.pr, st.cfg.File, inc_names(st.pr, st.cfg.File, d, ctx.s).names) }
            else { r.d.Includes.s.len() == 0 }))
    })
{
    let i = inc_names(st.pr, st.cfg.File, d, ctx.s);
    let n = i.names.len() as int;
    lemma_add_incs(st.pr, st.cfg.File, i.names, ctx, n, done);
    assert(i.names.subrange(0, n) =~= i.names);
}
proof fn lemma_res_accepted(st: PS, d: Directive, term: NgxToken, out: Seq<Option<Directive>>, ctx: Sl<S>, done: Seq<S>)
    requires indexed(st.pr, files_of(st.pr, done)), all_resolved(st.pr, st.cfg.File, ctx.s, files_of(st.pr, done), out), d.Comment is None, no_block(d), !d.IsMapBlockParameter, d.Includes == sl_nil::<int>(), d.Block == sl_nil::<Option<Directive>>()
    ensures match p_head(st, d, term, out, ctx) {
        Err(r) => inc_ok(st, r.st, done) && (r.err is Nil ==> all_resolved(r.st.pr, st.cfg.File, ctx.s, files_of(r.st.pr, done), r.out)),
        Ok(i) => inc_ok(st, i.st, done) && i.d.Block == sl_nil::<Option<Directive>>() && resolved(i.st.pr, st.cfg.File, ctx.s, files_of(i.st.pr, done), Some(i.d)),
    }
{
    let o = opts(st.pr);
    if in_map(ctx.s) {
        if map_accepts(ctx.s.last(), d.Directive, d.Args.s, term.Value) { lemma_res_push(st.pr, st.cfg.File, ctx.s, files_of(st.pr, done), out, Directive { IsMapBlockParameter: true, ..d }); }
    } else if o.IgnoreDirectives.s.contains(d.Directive) { }
    else if accepts(d.Directive, d.Args.s, term.Value, ctx.s, o) {
        let d2 = if d.Directive == lit!("if") { Directive { Args: Sl { s: if_args(d.Args.s), nn: true }, ..d } } else { d };
        lemma_inc_directive(st, d2, ctx, done);
        let r = p_include(st, d2, ctx);
        if r.err is Nil { assert(inc_names(st.pr, st.cfg.File, d2, ctx.s).names == inc_names(r.st.pr, st.cfg.File, r.d, ctx.s).names); }
    }
}
proof fn lemma_res_head(st: PS, t: NgxToken, out: Seq<Option<Directive>>, ctx: Sl<S>, done: Seq<S>)
    requires indexed(st.pr, files_of(st.pr, done)), all_resolved(st.pr, st.cfg.File, ctx.s, files_of(st.pr, done), out)
    ensures match s_head(st, t, out, ctx) {
        Err(r) => inc_ok(st, r.st, done) && (r.err is Nil ==> all_resolved(r.st.pr, st.cfg.File, ctx.s, files_of(r.st.pr, done), r.out)),
        Ok(h) => inc_ok(st, h.st, done) && h.d.Block == sl_nil::<Option<Directive>>() && resolved(h.st.pr, st.cfg.File, ctx.s, files_of(h.st.pr, done), Some(h.d)),
    }
{
    let o = opts(st.pr); let fname = st.cfg.File;
    if commented(t) { if o.ParseComments { lemma_res_push(st.pr, fname, ctx.s, files_of(st.pr, done), out, a_comment(rest1(t.Value), t.Line, file_tag(st))); } }
    else if st.toks.len() > 0 {
        let a = args_from(fname, ctx.s, o.ParseComments, st.toks[0], tail(st.toks), Seq::empty(), Seq::empty(), GoErr::Nil);
        if a.ok && a.err is Nil { lemma_res_accepted(PS { toks: a.toks, ..st }, plain(t, file_tag(st), a.args), a.term, out, ctx, done); }
    }
}
proof fn lemma_with_block(pr: parser, fname: S, ctx: Seq<S>, all: Seq<S>, more: Seq<S>, pr2: parser, d: Directive, b: Seq<Option<Directive>>)
    requires resolved(pr, fname, ctx, all, Some(d)), prefix(all, more), same_base(pr, pr2), all_resolved(pr2, fname, enter_ctx(d.Directive, ctx), more, b)
    ensures resolved(pr2, fname, ctx, more, Some(Directive { Block: sl_of(b), ..d }))
{
    let x = Directive { Block: sl_of(b), ..d };
    assert(inc_names(pr, fname, d, ctx).names == inc_names(pr2, fname, x, ctx).names);
    if points_to(d.Includes.s, inc_names(pr, fname, d, ctx).names, all) { lemma_points(d.Includes.s, inc_names(pr, fname, d, ctx).names, all, more); }
}
// whatever is returned, its includes point to the files they name
pub proof fn includes_point_to_their_files(st: PS, out: Seq<Option<Directive>>, ctx: Sl<S>, done: Seq<S>)
    requires indexed(st.pr, files_of(st.pr, done)), all_resolved(st.pr, st.cfg.File, ctx.s, files_of(st.pr, done), out)
    ensures ({ let r = p_block(st, out, ctx); inc_ok(st, r.st, done) && (r.err is Nil ==> all_resolved(r.st.pr, st.cfg.File, ctx.s, files_of(r.st.pr, done), r.out)) })
    decreases st.toks.len()
{
    lemma_block(st, out, ctx);
    if st.toks.len() > 0 && st.toks[0].Error is Nil && !closes(st.toks[0]) {
        let t = st.toks[0]; let s = PS { toks: tail(st.toks), ..st }; let fname = st.cfg.File;
        lemma_stmt(s, t, out, ctx); lemma_stmt_len(s, t, out, ctx); lemma_res_head(s, t, out, ctx, done); lemma_head_len(s, t, out, ctx);
        let r = p_stmt(s, t, out, ctx);
        match s_head(s, t, out, ctx) {
            Ok(h) => {
                let a1 = files_of(h.st.pr, done);
                if opens(h.term) {
                    includes_point_to_their_files(h.st, Seq::empty(), inner_ctx(h, ctx), done);
                    let b = p_block(h.st, Seq::empty(), inner_ctx(h, ctx));
                    lemma_prefix(files_of(s.pr, done), a1, files_of(b.st.pr, done));
                    if b.err is Nil {
                        let a2 = files_of(b.st.pr, done);
                        let d = Directive { Block: sl_of(b.out), ..h.d };
                        lemma_with_block(h.st.pr, fname, ctx.s, a1, a2, b.st.pr, h.d, b.out);
                        lemma_all_more(s.pr, b.st.pr, fname, ctx.s, files_of(s.pr, done), a2, out);
                        lemma_res_push(b.st.pr, fname, ctx.s, a2, out, d);
                        lemma_res_comments(b.st.pr, fname, ctx.s, a2, out.push(Some(d)), h.cms, h.cms.len() as int, h.line, h.tag);
                    }
                } else {
                    lemma_all_more(s.pr, h.st.pr, fname, ctx.s, files_of(s.pr, done), a1, out);
                    lemma_res_push(h.st.pr, fname, ctx.s, a1, out, h.d);
                    lemma_res_comments(h.st.pr, fname, ctx.s, a1, out.push(Some(h.d)), h.cms, h.cms.len() as int, h.line, h.tag);
                }
            }
            Err(x) => { }
        }
        assert(inc_ok(st, r.st, done));
        if r.err is Nil && !r.end { includes_point_to_their_files(r.st, r.out, ctx, done); lemma_prefix(files_of(st.pr, done), files_of(r.st.pr, done), files_of(p_block(st, out, ctx).st.pr, done)); }
    }
}
// ---- C09 for a whole parse ----
pub open spec fn config_ok(pr: parser, all: Seq<S>, c: Config) -> bool { exists|ctx: Seq<S>| all_resolved(pr, c.File, ctx, all, c.Parsed.s) }
pub open spec fn files_ok(s: FS, all: Seq<S>) -> bool { forall|i: int| 0 <= i < s.pay.Config.s.len() ==> config_ok(s.pr, all, #[trigger] s.pay.Config.s[i]) }
pub open spec fn incs_inv(s: FS, filename: S) -> bool {
    let all = files_of(s.pr, file_names(s.pay.Config.s));
    indexed(s.pr, all) && files_ok(s, all) && all.len() > 0 && all[0] == filename
}
proof fn lemma_files_more(s: FS, q: FS, all: Seq<S>, more: Seq<S>)
    requires files_ok(s, all), prefix(all, more), same_base(s.pr, q.pr), q.pay.Config == s.pay.Config
    ensures files_ok(q, more)
{
    assert forall|i: int| 0 <= i < q.pay.Config.s.len() implies config_ok(q.pr, more, #[trigger] q.pay.Config.s[i]) by {
        let c = s.pay.Config.s[i];
        assert(config_ok(s.pr, all, c));
        let ctx = choose|ctx: Seq<S>| all_resolved(s.pr, c.File, ctx, all, c.Parsed.s);
        lemma_all_more(s.pr, q.pr, c.File, ctx, all, more, c.Parsed.s);
    }
}
proof fn lemma_incs_step(s: FS, filename: S)
    requires incs_inv(s, filename), !s.stop, s.pr.includes.s.len() > 0
    ensures f_step(s).stop || incs_inv(f_step(s), filename)
{
    let q = f_step(s);
    let o = opts(s.pr); let i = s.pr.includes.s[0];
    if open_err(open_fn(o), i.path) is Nil {
        let st = f_start(s); let done = file_names(s.pay.Config.s).push(i.path); let all = files_of(s.pr, file_names(s.pay.Config.s));
        let r = f_file(s);
        assert(paths(s.pr.includes.s) =~= seq![i.path] + paths(st.pr.includes.s));
        assert(files_of(st.pr, done) =~= all);
        includes_point_to_their_files(st, Seq::empty(), i.ctx, done);
        lemma_keeps(st, Seq::empty(), i.ctx);
        if !q.stop {
            let more = files_of(r.st.pr, done);
            assert(file_names(q.pay.Config.s) =~= done);
            assert(files_of(q.pr, file_names(q.pay.Config.s)) == more);
            let s2 = FS { pr: r.st.pr, ..s };
            lemma_files_more(s, s2, all, more);
            let k = s.pay.Config.s.len() as int;
            assert(all_resolved(q.pr, q.pay.Config.s[k].File, i.ctx.s, more, q.pay.Config.s[k].Parsed.s));
            assert forall|j: int| 0 <= j < q.pay.Config.s.len() implies config_ok(q.pr, more, #[trigger] q.pay.Config.s[j]) by {
                if j < k { assert(q.pay.Config.s[j] == s2.pay.Config.s[j]); assert(config_ok(s2.pr, more, s2.pay.Config.s[j])); }
            }
            assert(all[0] == more[0]);
        }
    }
}
pub proof fn lemma_incs_run(filename: S, o: ParseOptions, cbs: Seq<(GoErr, Opq)>, n: int)
    requires n >= 0
    ensures ({ let s = f_run(f_init(filename, o, cbs), n); s.stop || incs_inv(s, filename) })
    decreases n
{
    let s0 = f_init(filename, o, cbs);
    lemma_f_run(s0, 0);
    if n == 0 {
        let all = files_of(s0.pr, file_names(s0.pay.Config.s));
        assert(all =~= seq![filename]);
        assert(s0.pr.included.m.dom() =~= Set::empty().insert(filename));
    } else {
        lemma_incs_run(filename, o, cbs, n - 1); lemma_f_run(s0, n - 1);
        let s = f_run(s0, n - 1);
        if !s.stop && s.pr.includes.s.len() > 0 { lemma_incs_step(s, filename); }
    }
}
// each path is the file of one config, the main file of the first, and every include points to the configs of the files it names
pub open spec fn includes_resolved(pr: parser, filename: S, files: Seq<Config>) -> bool {
    &&& files.len() > 0 && files[0].File == filename
    &&& forall|i: int, j: int| 0 <= i < j < files.len() ==> (#[trigger] files[i]).File != (#[trigger] files[j]).File
    &&& forall|i: int| 0 <= i < files.len() ==> config_ok(pr, file_names(files), #[trigger] files[i])
}
pub proof fn every_include_is_resolved(filename: S, o: ParseOptions, cbs: Seq<(GoErr, Opq)>, n: int)
    requires n >= 0, !f_run(f_init(filename, o, cbs), n).stop, f_run(f_init(filename, o, cbs), n).pr.includes.s.len() == 0
    ensures includes_resolved(f_run(f_init(filename, o, cbs), n).pr, filename, f_run(f_init(filename, o, cbs), n).pay.Config.s)
{
    lemma_incs_run(filename, o, cbs, n);
    let s = f_run(f_init(filename, o, cbs), n); let files = s.pay.Config.s; let all = files_of(s.pr, file_names(files));
    assert(all =~= file_names(files));
    assert forall|i: int, j: int| 0 <= i < j < files.len() implies (#[trigger] files[i]).File != (#[trigger] files[j]).File by {
        assert(all[i] == files[i].File && all[j] == files[j].File);
    }
}
