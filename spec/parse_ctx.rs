// ---- what a returned tree may hold, and where ----
// d was accepted in the block path ctx, with the arguments written there
pub open spec fn accepted_as(o: ParseOptions, ctx: Seq<S>, d: Directive, args: Seq<S>, term: S) -> bool {
    &&& accepts(d.Directive, args, term, ctx, o)
    &&& d.Args.s == (if d.Directive == lit!("if") { if_args(args) } else { args })
    &&& term == lit!("{") || term == lit!(";") && d.Block.s.len() == 0
}
// a is what may be found in the block path ctx, and so are its children in theirs
pub open spec fn fits(o: ParseOptions, ctx: Seq<S>, a: Option<Directive>) -> bool decreases a, 0nat {
    a matches Some(d) && (
        if d.Comment is Some { o.ParseComments && no_block(d) }
        else if in_map(ctx) { d.IsMapBlockParameter && map_accepts(ctx.last(), d.Directive, d.Args.s, lit!(";")) && no_block(d) }
        else {
            &&& !d.IsMapBlockParameter
            &&& !o.IgnoreDirectives.s.contains(d.Directive)
            &&& o.SingleFile ==> d.Includes.s.len() == 0
            &&& exists|args: Seq<S>, term: S| accepted_as(o, ctx, d, args, term)
            &&& all_fit(o, enter_ctx(d.Directive, ctx), d.Block.s)
        })
}
pub open spec fn all_fit(o: ParseOptions, ctx: Seq<S>, list: Seq<Option<Directive>>) -> bool decreases list, list.len() + 1 {
    forall|i: int| 0 <= i < list.len() ==> fits(o, ctx, #[trigger] list[i])
}
proof fn lemma_fit_push(o: ParseOptions, ctx: Seq<S>, list: Seq<Option<Directive>>, d: Directive)
    requires all_fit(o, ctx, list), fits(o, ctx, Some(d))
    ensures all_fit(o, ctx, list.push(Some(d)))
{
    let b = list.push(Some(d));
    assert forall|i: int| 0 <= i < b.len() implies fits(o, ctx, #[trigger] b[i]) by { if i < list.len() { assert(b[i] == list[i]); } }
}
proof fn lemma_fit_comments(o: ParseOptions, ctx: Seq<S>, list: Seq<Option<Directive>>, cms: Seq<S>, k: int, line: int, tag: S)
    requires all_fit(o, ctx, list), o.ParseComments || k <= 0, k <= cms.len()
    ensures all_fit(o, ctx, with_comments(list, cms, k, line, tag))
    decreases k
{
    if k > 0 {
        lemma_fit_comments(o, ctx, list, cms, k - 1, line, tag);
        lemma_fit_push(o, ctx, with_comments(list, cms, k - 1, line, tag), a_comment(cms[k - 1], line, tag));
    }
}
proof fn lemma_no_comments(fname: S, ctx: Seq<S>, t: NgxToken, toks: Seq<NgxToken>, args: Seq<S>, err: GoErr)
    ensures args_from(fname, ctx, false, t, toks, args, Seq::empty(), err).cms.len() == 0,
        args_from(fname, ctx, false, t, toks, args, Seq::empty(), err).ok ==> ends_stmt(args_from(fname, ctx, false, t, toks, args, Seq::empty(), err).term)
    decreases toks.len()
{
    lemma_args(fname, ctx, false, t, toks, args, Seq::empty(), err);
    if !ends_stmt(t) && toks.len() > 0 {
        let e = if err is Nil && !(t.Error is Nil) { tok_err(fname, t, ctx) } else { err };
        let a2 = if commented(t) { args } else { args.push(t.Value) };
        lemma_no_comments(fname, ctx, toks[0], tail(toks), a2, e);
    }
}
proof fn lemma_term(fname: S, ctx: Seq<S>, coms: bool, t: NgxToken, toks: Seq<NgxToken>, args: Seq<S>, cms: Seq<S>, err: GoErr)
    ensures args_from(fname, ctx, coms, t, toks, args, cms, err).ok ==> ends_stmt(args_from(fname, ctx, coms, t, toks, args, cms, err).term)
    decreases toks.len()
{
    lemma_args(fname, ctx, coms, t, toks, args, cms, err);
    if !ends_stmt(t) && toks.len() > 0 {
        let e = if err is Nil && !(t.Error is Nil) { tok_err(fname, t, ctx) } else { err };
        let a2 = if commented(t) { args } else { args.push(t.Value) };
        let c2 = if commented(t) && coms { cms.push(rest1(t.Value)) } else { cms };
        lemma_term(fname, ctx, coms, toks[0], tail(toks), a2, c2, e);
    }
}
// a statement that is done after its terminator
proof fn lemma_fit_head(st: PS, t: NgxToken, out: Seq<Option<Directive>>, ctx: Sl<S>)
    requires all_fit(opts(st.pr), ctx.s, out)
    ensures match s_head(st, t, out, ctx) {
        Err(r) => all_fit(opts(st.pr), ctx.s, r.out),
        Ok(h) => {
            let o = opts(st.pr);
            &&& o.ParseComments || h.cms.len() == 0
            &&& !in_map(ctx.s) && h.d.Comment is None && h.d.Block.s.len() == 0 && ends_stmt(h.term)
            &&& forall|b: Sl<Option<Directive>>| opens(h.term) && all_fit(o, enter_ctx(h.d.Directive, ctx.s), b.s) ==> #[trigger] fits(o, ctx.s, Some(Directive { Block: b, ..h.d }))
            &&& !opens(h.term) ==> fits(o, ctx.s, Some(h.d))
        },
    }
{
    let o = opts(st.pr); let fname = st.cfg.File;
    if commented(t) { if o.ParseComments { lemma_fit_push(o, ctx.s, out, a_comment(rest1(t.Value), t.Line, file_tag(st))); } }
    else if st.toks.len() > 0 {
        let a = args_from(fname, ctx.s, o.ParseComments, st.toks[0], tail(st.toks), Seq::empty(), Seq::empty(), GoErr::Nil);
        lemma_no_comments(fname, ctx.s, st.toks[0], tail(st.toks), Seq::empty(), GoErr::Nil);
        lemma_term(fname, ctx.s, o.ParseComments, st.toks[0], tail(st.toks), Seq::empty(), Seq::empty(), GoErr::Nil);
        if a.ok && a.err is Nil { lemma_fit_accepted(PS { toks: a.toks, ..st }, plain(t, file_tag(st), a.args), a.term, out, ctx); }
    }
}
proof fn lemma_fit_accepted(st: PS, d: Directive, term: NgxToken, out: Seq<Option<Directive>>, ctx: Sl<S>)
    requires all_fit(opts(st.pr), ctx.s, out), d.Comment is None, no_block(d), !d.IsMapBlockParameter, ends_stmt(term)
    ensures match p_head(st, d, term, out, ctx) {
        Err(r) => all_fit(opts(st.pr), ctx.s, r.out),
        Ok(i) => {
            let o = opts(st.pr);
            &&& !in_map(ctx.s) && i.d.Comment is None && i.d.Block.s.len() == 0
            &&& forall|b: Sl<Option<Directive>>| opens(term) && all_fit(o, enter_ctx(i.d.Directive, ctx.s), b.s) ==> #[trigger] fits(o, ctx.s, Some(Directive { Block: b, ..i.d }))
            &&& !opens(term) ==> fits(o, ctx.s, Some(i.d))
        },
    }
{
    lits_ax();
    let o = opts(st.pr);
    if in_map(ctx.s) {
        if map_accepts(ctx.s.last(), d.Directive, d.Args.s, term.Value) {
            let m = Directive { IsMapBlockParameter: true, ..d };
            assert(fits(o, ctx.s, Some(m)));
            lemma_fit_push(o, ctx.s, out, m);
        }
    } else if o.IgnoreDirectives.s.contains(d.Directive) { }
    else if accepts(d.Directive, d.Args.s, term.Value, ctx.s, o) {
        let d2 = if d.Directive == lit!("if") { Directive { Args: Sl { s: if_args(d.Args.s), nn: true }, ..d } } else { d };
        let r = p_include(st, d2, ctx);
        if r.err is Nil {
            assert(r.d == Directive { Includes: r.d.Includes, ..d2 });
            assert(o.SingleFile ==> r.d.Includes.s.len() == 0);
            assert forall|b: Sl<Option<Directive>>| opens(term) && all_fit(o, enter_ctx(r.d.Directive, ctx.s), b.s) implies #[trigger] fits(o, ctx.s, Some(Directive { Block: b, ..r.d })) by {
                let x = Directive { Block: b, ..r.d };
                assert(accepted_as(o, ctx.s, x, d.Args.s, term.Value));
            }
            if !opens(term) {
                assert(accepted_as(o, ctx.s, r.d, d.Args.s, term.Value));
                assert(r.d.Block.s.len() == 0);
                assert(fits(o, ctx.s, Some(r.d)));
            }
        }
    }
}
// C05, C06, C18: whatever is returned for a block or file, with or without errors, fits the path it stands in
pub proof fn what_is_returned_fits(st: PS, out: Seq<Option<Directive>>, ctx: Sl<S>)
    requires all_fit(opts(st.pr), ctx.s, out)
    ensures all_fit(opts(st.pr), ctx.s, p_block(st, out, ctx).out)
    decreases st.toks.len()
{
    lemma_block(st, out, ctx);
    if st.toks.len() > 0 && st.toks[0].Error is Nil && !closes(st.toks[0]) {
        let t = st.toks[0]; let s = PS { toks: tail(st.toks), ..st };
        lemma_stmt(s, t, out, ctx); lemma_stmt_len(s, t, out, ctx); lemma_fit_head(s, t, out, ctx); lemma_head_len(s, t, out, ctx); lemma_head_keeps(s, t, out, ctx);
        let r = p_stmt(s, t, out, ctx); let o = opts(st.pr);
        match s_head(s, t, out, ctx) {
            Ok(h) => {
                if opens(h.term) {
                    what_is_returned_fits(h.st, Seq::empty(), inner_ctx(h, ctx));
                    let b = p_block(h.st, Seq::empty(), inner_ctx(h, ctx));
                    lemma_keeps(h.st, Seq::empty(), inner_ctx(h, ctx));
                    if b.err is Nil {
                        let d = Directive { Block: sl_of(b.out), ..h.d };
                        lemma_fit_push(o, ctx.s, out, d);
                        lemma_fit_comments(o, ctx.s, out.push(Some(d)), h.cms, h.cms.len() as int, h.line, h.tag);
                    }
                } else {
                    lemma_fit_push(o, ctx.s, out, h.d);
                    lemma_fit_comments(o, ctx.s, out.push(Some(h.d)), h.cms, h.cms.len() as int, h.line, h.tag);
                }
                assert(opts(r.st.pr) == o);
            }
            Err(x) => { }
        }
        assert(all_fit(o, ctx.s, r.out));
        if r.err is Nil && !r.end { what_is_returned_fits(r.st, r.out, ctx); }
    }
}
// C18: ignored names, unknown names where they are forbidden, and included files with single-file parsing
pub proof fn forbidden_never_appears(o: ParseOptions, ctx: Seq<S>, d: Directive)
    requires fits(o, ctx, Some(d)), d.Comment is None, !in_map(ctx)
    ensures !o.IgnoreDirectives.s.contains(d.Directive), o.ErrorOnUnknownDirectives ==> is_known(o.DirectiveSources.s, d.Directive),
        o.SingleFile ==> d.Includes.s.len() == 0
{ }
pub proof fn no_comment_unless_asked(o: ParseOptions, ctx: Seq<S>, a: Option<Directive>)
    requires fits(o, ctx, a), !o.ParseComments
    ensures a is Some && a->0.Comment is None
{ }
// C05: the path of a directive, from the path of its file and the names of the blocks around it
pub open spec fn entered(ctx: Seq<S>, names: Seq<S>) -> Seq<S> decreases names.len() {
    if names.len() == 0 { ctx } else { enter_ctx(names.last(), entered(ctx, names.drop_last())) }
}
pub open spec fn last_location(path: Seq<S>) -> int decreases path.len() {
    if path.len() <= 1 { 0 } else if path.last() == lit!("location") { path.len() - 1 } else { last_location(path.drop_last()) }
}
pub open spec fn block_path(path: Seq<S>) -> Seq<S> {
    if path.len() > 0 && path[0] == lit!("http") && last_location(path) > 0 { seq![lit!("http"), lit!("location")] + path.subrange(last_location(path) + 1, path.len() as int) } else { path }
}
proof fn lemma_last_location(path: Seq<S>)
    ensures path.len() == 0 || 0 <= last_location(path) < path.len(), path.len() == 0 ==> last_location(path) == 0
    decreases path.len()
{ if path.len() > 1 { lemma_last_location(path.drop_last()); } }
proof fn lemma_path_push(path: Seq<S>, name: S)
    ensures enter_ctx(name, block_path(path)) == block_path(path.push(name))
{
    lits_ax();
    let p = path.push(name);
    lemma_last_location(path);
    assert(p.drop_last() =~= path);
    assert(p.last() == name);
    let c = block_path(path);
    if path.len() > 0 {
        assert(p[0] == path[0]);
        if path[0] == lit!("http") {
            assert(c[0] == lit!("http"));
            if name == lit!("location") { assert(p.subrange(p.len() as int, p.len() as int) =~= Seq::<S>::empty()); assert(block_path(p) =~= seq![lit!("http"), lit!("location")]); }
            else if last_location(path) > 0 { let k = last_location(path);
                assert(p.subrange(k + 1, p.len() as int) =~= path.subrange(k + 1, path.len() as int).push(name));
                assert(block_path(p) =~= c.push(name)); }
        }
    }
}
pub proof fn path_of_a_directive(ctx: Seq<S>, names: Seq<S>)
    requires block_path(ctx) == ctx
    ensures entered(ctx, names) == block_path(ctx + names), block_path(entered(ctx, names)) == entered(ctx, names)
    decreases names.len()
{
    if names.len() == 0 { assert(ctx + names =~= ctx); } else {
        path_of_a_directive(ctx, names.drop_last());
        assert((ctx + names.drop_last()).push(names.last()) =~= ctx + names);
        lemma_path_push(ctx + names.drop_last(), names.last());
        let e = entered(ctx, names.drop_last());
        lemma_path_push(e, names.last());
        lemma_path_twice(ctx + names);
    }
}
proof fn lemma_path_twice(path: Seq<S>)
    ensures block_path(block_path(path)) == block_path(path)
    decreases path.len()
{
    lits_ax();
    if path.len() > 0 {
        let a = path.drop_last(); let n = path.last();
        assert(a.push(n) =~= path);
        lemma_path_push(a, n);
        lemma_path_twice(a);
        lemma_path_push(block_path(a), n);
        // block_path(path) == enter_ctx(n, block_path(a)) == block_path(block_path(a).push(n))
        let c = block_path(a);
        if c.len() > 0 && c[0] == lit!("http") && n == lit!("location") {
            let h = seq![lit!("http"), lit!("location")];
            assert(block_path(path) == h);
            assert(h.last() == lit!("location"));
            assert(last_location(h) == 1);
            assert(h.subrange(2, 2) =~= Seq::<S>::empty());
            assert(block_path(h) =~= h);
        } else {
            assert(block_path(path) == c.push(n));
            assert(block_path(c.push(n)) == enter_ctx(n, block_path(c)));
        }
    } else { }
}
// a file starts in the path of the include that was met first
proof fn lemma_incs_ctx(pr: parser, from: S, names: Seq<S>, ctx: Sl<S>, k: int, i: int)
    requires pr.includes.s.len() <= i < add_incs(pr, from, names, ctx, k).includes.s.len()
    ensures add_incs(pr, from, names, ctx, k).includes.s[i].ctx == ctx
    decreases k
{ if k > 0 { let p = add_incs(pr, from, names, ctx, k - 1); if i < p.includes.s.len() { lemma_incs_ctx(pr, from, names, ctx, k - 1, i); } } }
pub proof fn included_files_start_where_they_are_included(st: PS, d: Directive, ctx: Sl<S>, i: int)
    requires st.pr.includes.s.len() <= i < p_include(st, d, ctx).st.pr.includes.s.len()
    ensures p_include(st, d, ctx).st.pr.includes.s[i].ctx == ctx
{
    let n = inc_names(st.pr, st.cfg.File, d, ctx.s).names;
    lemma_incs_ctx(st.pr, st.cfg.File, n, ctx, n.len() as int, i);
}
// C05, C18 for every file of a parse
pub open spec fn file_fits(o: ParseOptions, list: Seq<Option<Directive>>) -> bool { exists|ctx: Seq<S>| all_fit(o, ctx, list) }
pub open spec fn files_fit(o: ParseOptions, files: Seq<Config>) -> bool { forall|i: int| 0 <= i < files.len() ==> file_fits(o, (#[trigger] files[i]).Parsed.s) }
pub proof fn every_file_fits(filename: S, o: ParseOptions, cbs: Seq<(GoErr, Opq)>, n: int)
    requires n >= 0
    ensures files_fit(o, f_run(f_init(filename, o, cbs), n).pay.Config.s), opts(f_run(f_init(filename, o, cbs), n).pr) == o
    decreases n
{
    let s0 = f_init(filename, o, cbs);
    if n == 0 { lemma_f_run(s0, 0); assert(s0.pay.Config.s.len() == 0);  } else {
        every_file_fits(filename, o, cbs, n - 1); lemma_f_run(s0, n - 1);
        let s = f_run(s0, n - 1);
        assert(f_run(s0, n) == (if s.stop || s.pr.includes.s.len() == 0 { s } else { f_step(s) }));
        if !s.stop && s.pr.includes.s.len() > 0 && open_err(open_fn(opts(s.pr)), s.pr.includes.s[0].path) is Nil {
            let ctx = s.pr.includes.s[0].ctx;
            let r = f_file(s);
            what_is_returned_fits(f_start(s), Seq::empty(), ctx);
            lemma_keeps(f_start(s), Seq::empty(), ctx);
            let q = f_step(s); let k = s.pay.Config.s.len() as int;
            assert(all_fit(o, ctx.s, Seq::<Option<Directive>>::empty()));
            assert(opts(f_start(s).pr) == o && opts(r.st.pr) == o && opts(q.pr) == o);
            assert(r.st.pay.Config == s.pay.Config);
            assert(r.st.cfg.Parsed == sl_of(Seq::<Option<Directive>>::empty()));
            if !(r.err is Nil) && o.StopParsingOnError { assert(q.pay.Config == s.pay.Config); }
            else { assert(q.pay.Config.s.len() == k + 1); assert(all_fit(o, ctx.s, q.pay.Config.s[k].Parsed.s)); }
            assert forall|i: int| 0 <= i < q.pay.Config.s.len() implies file_fits(o, (#[trigger] q.pay.Config.s[i]).Parsed.s) by {
                if i < k { assert(q.pay.Config.s[i] == s.pay.Config.s[i]); } else { assert(all_fit(o, ctx.s, q.pay.Config.s[i].Parsed.s)); }
            }
        }
    }
}
// C06: a statement in a map-like block
pub proof fn map_statements(st: PS, d: Directive, term: NgxToken, out: Seq<Option<Directive>>, ctx: Sl<S>)
    requires in_map(ctx.s), ends_stmt(term)
    ensures p_head(st, d, term, out, ctx) is Err, ({
        let r = p_head(st, d, term, out, ctx)->Err_0; let e = perr(st.cfg.File, Some(d.Line), ctx.s.last(), GoErr::Nil);
        if map_accepts(ctx.s.last(), d.Directive, d.Args.s, term.Value) { r == (PR { st: st, out: out.push(Some(Directive { IsMapBlockParameter: true, ..d })), err: GoErr::Nil, end: false }) }
        else {
            &&& r.out == out
            &&& opts(st.pr).StopParsingOnError ==> r.err == e
            &&& !opts(st.pr).StopParsingOnError ==> r.st.cfg == fail_cfg(st.cfg, e) && r.st.pr == st.pr
        }
    })
{ }
