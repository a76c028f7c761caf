// ---- the tree mirrors the tokens ----
// the words between a statement's name and its terminator
pub open spec fn stmt_words(toks: Seq<NgxToken>) -> Seq<S> decreases toks.len() {
    if toks.len() == 0 || ends_stmt(toks[0]) { Seq::empty() }
    else if commented(toks[0]) { stmt_words(tail(toks)) }
    else { seq![toks[0].Value] + stmt_words(tail(toks)) }
}
// the comments written there
pub open spec fn stmt_comments(toks: Seq<NgxToken>) -> Seq<S> decreases toks.len() {
    if toks.len() == 0 || ends_stmt(toks[0]) { Seq::empty() }
    else if commented(toks[0]) { seq![rest1(toks[0].Value)] + stmt_comments(tail(toks)) }
    else { stmt_comments(tail(toks)) }
}
// the terminator and what follows it
pub open spec fn stmt_end(toks: Seq<NgxToken>) -> Seq<NgxToken> decreases toks.len() {
    if toks.len() == 0 || ends_stmt(toks[0]) { toks } else { stmt_end(tail(toks)) }
}
pub open spec fn is_stmt(d: Option<Directive>, t: NgxToken, words: Seq<S>, tag: S) -> bool {
    d matches Some(x) && x.Directive == t.Value && x.Line == t.Line && x.File == tag && x.Comment is None
    && x.Args.s == (if t.Value == lit!("if") && !x.IsMapBlockParameter { if_args(words) } else { words })
}
pub open spec fn are_comments(list: Seq<Option<Directive>>, k: int, cms: Seq<S>, line: int, tag: S) -> bool {
    forall|j: int| 0 <= j < cms.len() ==> k + j < list.len() && #[trigger] list[k + j] == Some(a_comment(cms[j], line, tag))
}
// list[k..] holds exactly the statements of toks up to the } that closes the block (or the end of toks);
// the result is what follows, and whether this is so
pub open spec fn mirror(o: ParseOptions, tag: S, fname: S, toks: Seq<NgxToken>, list: Seq<Option<Directive>>, k: int, ctx: Seq<S>) -> (Seq<NgxToken>, bool)
    decreases toks.len()
{
    if toks.len() == 0 { (toks, k == list.len()) } else {
        let t = toks[0]; let r = tail(toks);
        if !(t.Error is Nil) { (r, false) }
        else if closes(t) { (r, k == list.len()) }
        else if commented(t) {
            if !o.ParseComments { mirror(o, tag, fname, r, list, k, ctx) }
            else if k >= list.len() || list[k] != Some(a_comment(rest1(t.Value), t.Line, tag)) { (r, false) }
            else { mirror(o, tag, fname, r, list, k + 1, ctx) }
        } else {
            let e = stmt_end(r);
            if e.len() == 0 || e.len() >= toks.len() { (e, false) } else {
                let term = e[0]; let after = tail(e);
                if in_map(ctx) {
                    if k >= list.len() || !is_stmt(list[k], t, stmt_words(r), tag) || !list[k]->0.IsMapBlockParameter || list[k]->0.Block.s.len() > 0 || term.Value != lit!(";") { (after, false) }
                    else { mirror(o, tag, fname, after, list, k + 1, ctx) }
                } else if o.IgnoreDirectives.s.contains(t.Value) {
                    let a = if opens(term) { skip(fname, after, 0).0 } else { after };
                    if closes(term) { (a, k == list.len()) } else if a.len() >= toks.len() { (a, false) } else { mirror(o, tag, fname, a, list, k, ctx) }
                } else if k >= list.len() || !is_stmt(list[k], t, stmt_words(r), tag) || list[k]->0.IsMapBlockParameter || closes(term) { (after, false) }
                else {
                    let b = if opens(term) { mirror(o, tag, fname, after, list[k]->0.Block.s, 0, enter_ctx(t.Value, ctx)) } else { (after, list[k]->0.Block.s.len() == 0) };
                    let cms = if o.ParseComments { stmt_comments(r) } else { Seq::empty() };
                    if !b.1 || b.0.len() >= toks.len() || !are_comments(list, k + 1, cms, t.Line, tag) { (b.0, false) }
                    else { mirror(o, tag, fname, b.0, list, k + 1 + cms.len(), ctx) }
                }
            }
        }
    }
}

pub open spec fn pre(a: Seq<Option<Directive>>, b: Seq<Option<Directive>>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> a[i] == #[trigger] b[i] }
pub proof fn lemma_comments_pre(out: Seq<Option<Directive>>, cms: Seq<S>, k: int, line: int, file: S)
    requires 0 <= k <= cms.len()
    ensures pre(out, with_comments(out, cms, k, line, file)), with_comments(out, cms, k, line, file).len() == out.len() + k,
        forall|j: int| 0 <= j < k ==> #[trigger] with_comments(out, cms, k, line, file)[out.len() + j] == Some(a_comment(cms[j], line, file))
    decreases k
{
    if k > 0 {
        lemma_comments_pre(out, cms, k - 1, line, file);
        let a = with_comments(out, cms, k - 1, line, file); let b = with_comments(out, cms, k, line, file);
        assert(b == a.push(Some(a_comment(cms[k - 1], line, file))));
        assert forall|j: int| 0 <= j < k implies #[trigger] b[out.len() + j] == Some(a_comment(cms[j], line, file)) by {
            if j < k - 1 { assert(b[out.len() + j] == a[out.len() + j]); }
        }
        assert forall|i: int| 0 <= i < out.len() implies out[i] == #[trigger] b[i] by { assert(b[i] == a[i]); }
    }
}
// earlier errors stay
pub open spec fn more_errors(a: PS, b: PS) -> bool {
    a.cfg.Errors.s.len() <= b.cfg.Errors.s.len() && (a.cfg.Errors.s.len() == b.cfg.Errors.s.len() ==> a.cfg.Errors == b.cfg.Errors)
}
pub proof fn lemma_grow(st: PS, out: Seq<Option<Directive>>, ctx: Sl<S>)
    ensures pre(out, p_block(st, out, ctx).out), more_errors(st, p_block(st, out, ctx).st)
    decreases st.toks.len()
{
    lemma_block(st, out, ctx);
    if st.toks.len() > 0 && st.toks[0].Error is Nil && !closes(st.toks[0]) {
        let t = st.toks[0]; let s = PS { toks: tail(st.toks), ..st };
        lemma_stmt_grow(s, t, out, ctx); lemma_stmt_len(s, t, out, ctx);
        let r = p_stmt(s, t, out, ctx);
        if r.err is Nil && !r.end { lemma_grow(r.st, r.out, ctx); }
    }
}
pub proof fn lemma_stmt_grow(st: PS, t: NgxToken, out: Seq<Option<Directive>>, ctx: Sl<S>)
    ensures pre(out, p_stmt(st, t, out, ctx).out), more_errors(st, p_stmt(st, t, out, ctx).st)
    decreases st.toks.len(), 1int
{
    lemma_stmt(st, t, out, ctx); lemma_head_len(st, t, out, ctx);
    match s_head(st, t, out, ctx) {
        Ok(h) => {
            if opens(h.term) {
                lemma_grow(h.st, Seq::empty(), inner_ctx(h, ctx));
                let b = p_block(h.st, Seq::empty(), inner_ctx(h, ctx));
                lemma_comments_pre(out.push(Some(Directive { Block: sl_of(b.out), ..h.d })), h.cms, h.cms.len() as int, h.line, h.tag);
            }
            lemma_comments_pre(out.push(Some(h.d)), h.cms, h.cms.len() as int, h.line, h.tag);
        }
        Err(r) => { }
    }
}
pub proof fn lemma_words(fname: S, ctx: Seq<S>, coms: bool, t: NgxToken, toks: Seq<NgxToken>, args: Seq<S>, cms: Seq<S>, err: GoErr, all: Seq<NgxToken>)
    requires all.len() > 0, all[0] == t, tail(all) == toks
    ensures ({
        let a = args_from(fname, ctx, coms, t, toks, args, cms, err);
        a.ok ==> a.args == args + stmt_words(all) && a.cms == cms + (if coms { stmt_comments(all) } else { Seq::empty() })
            && stmt_end(all).len() > 0 && stmt_end(all)[0] == a.term && tail(stmt_end(all)) == a.toks && stmt_end(all).len() <= all.len() && ends_stmt(a.term)
    })
    decreases toks.len()
{
    lemma_args(fname, ctx, coms, t, toks, args, cms, err);
    let a = args_from(fname, ctx, coms, t, toks, args, cms, err);
    if ends_stmt(t) { assert(args + stmt_words(all) =~= args); assert(cms + stmt_comments(all) =~= cms); assert(cms + Seq::<S>::empty() =~= cms); }
    else if toks.len() > 0 {
        let e = if err is Nil && !(t.Error is Nil) { tok_err(fname, t, ctx) } else { err };
        let a2 = if commented(t) { args } else { args.push(t.Value) };
        let c2 = if commented(t) && coms { cms.push(rest1(t.Value)) } else { cms };
        lemma_words(fname, ctx, coms, toks[0], tail(toks), a2, c2, e, toks);
        assert(args.push(t.Value) + stmt_words(toks) =~= args + (seq![t.Value] + stmt_words(toks)));
        assert(cms.push(rest1(t.Value)) + stmt_comments(toks) =~= cms + (seq![rest1(t.Value)] + stmt_comments(toks)));
    }
}
pub proof fn lemma_braces(t: NgxToken) ensures !(opens(t) && closes(t)) { lits_ax(); }
pub open spec fn same_file(a: PS, b: PS) -> bool { opts(a.pr) == opts(b.pr) && a.cfg.File == b.cfg.File }
pub proof fn lemma_mirror(st: PS, out: Seq<Option<Directive>>, ctx: Sl<S>, list: Seq<Option<Directive>>)
    requires p_block(st, out, ctx).err is Nil, p_block(st, out, ctx).st.cfg.Errors == st.cfg.Errors, list == p_block(st, out, ctx).out
    ensures mirror(opts(st.pr), file_tag(st), st.cfg.File, st.toks, list, out.len() as int, ctx.s) == (p_block(st, out, ctx).st.toks, true)
    decreases st.toks.len(), 2int
{
    lemma_block(st, out, ctx);
    if st.toks.len() > 0 && st.toks[0].Error is Nil && !closes(st.toks[0]) {
        let t = st.toks[0];
        if commented(t) { lemma_mirror_comment(st, out, ctx, list); }
        else if in_map(ctx.s) { lemma_mirror_map(st, out, ctx, list); }
        else if opts(st.pr).IgnoreDirectives.s.contains(t.Value) { lemma_mirror_ignored(st, out, ctx, list); }
        else { lemma_mirror_stmt(st, out, ctx, list); }
    }
}
proof fn lemma_mirror_comment(st: PS, out: Seq<Option<Directive>>, ctx: Sl<S>, list: Seq<Option<Directive>>)
    requires p_block(st, out, ctx).err is Nil, p_block(st, out, ctx).st.cfg.Errors == st.cfg.Errors, list == p_block(st, out, ctx).out,
        st.toks.len() > 0, st.toks[0].Error is Nil, !closes(st.toks[0]), commented(st.toks[0])
    ensures mirror(opts(st.pr), file_tag(st), st.cfg.File, st.toks, list, out.len() as int, ctx.s) == (p_block(st, out, ctx).st.toks, true)
    decreases st.toks.len(), 1int
{
    lemma_block(st, out, ctx);
    let t = st.toks[0]; let s = PS { toks: tail(st.toks), ..st }; let o = opts(st.pr);
    lemma_stmt(s, t, out, ctx); lemma_head_len(s, t, out, ctx); lemma_stmt_len(s, t, out, ctx);
    lemma_stmt_grow(s, t, out, ctx);
    let r = p_stmt(s, t, out, ctx);
    let fname = st.cfg.File; let tag = file_tag(st); let k = out.len() as int;
    let m = mirror(o, tag, fname, st.toks, list, k, ctx.s);
    if !r.end { lemma_grow(r.st, r.out, ctx); }
    assert(r.st.cfg.Errors == st.cfg.Errors);
    assert(pre(r.out, list));
    lemma_mirror(r.st, r.out, ctx, list);
    if o.ParseComments { assert(list[k] == r.out[k]); }
}
proof fn lemma_mirror_map(st: PS, out: Seq<Option<Directive>>, ctx: Sl<S>, list: Seq<Option<Directive>>)
    requires p_block(st, out, ctx).err is Nil, p_block(st, out, ctx).st.cfg.Errors == st.cfg.Errors, list == p_block(st, out, ctx).out,
        st.toks.len() > 0, st.toks[0].Error is Nil, !closes(st.toks[0]), !commented(st.toks[0]), in_map(ctx.s)
    ensures mirror(opts(st.pr), file_tag(st), st.cfg.File, st.toks, list, out.len() as int, ctx.s) == (p_block(st, out, ctx).st.toks, true)
    decreases st.toks.len(), 1int
{
    lemma_block(st, out, ctx);
    let t = st.toks[0]; let s = PS { toks: tail(st.toks), ..st }; let o = opts(st.pr);
    lemma_stmt(s, t, out, ctx); lemma_head_len(s, t, out, ctx); lemma_stmt_len(s, t, out, ctx);
    lemma_stmt_grow(s, t, out, ctx);
    let r = p_stmt(s, t, out, ctx);
    let fname = st.cfg.File; let tag = file_tag(st); let k = out.len() as int;
    let m = mirror(o, tag, fname, st.toks, list, k, ctx.s);
    if !r.end { lemma_grow(r.st, r.out, ctx); }
    assert(r.st.cfg.Errors == st.cfg.Errors);
    assert(pre(r.out, list));
    assert(s.toks.len() > 0);
    let a = args_from(fname, ctx.s, o.ParseComments, s.toks[0], tail(s.toks), Seq::empty(), Seq::empty(), GoErr::Nil);
    lemma_words(fname, ctx.s, o.ParseComments, s.toks[0], tail(s.toks), Seq::empty(), Seq::empty(), GoErr::Nil, s.toks);
    assert(a.ok && a.err is Nil);
    assert(Seq::<S>::empty() + stmt_words(s.toks) =~= stmt_words(s.toks));
    let cms = if o.ParseComments { stmt_comments(s.toks) } else { Seq::empty() };
    assert(Seq::<S>::empty() + cms =~= cms);
    let e = stmt_end(s.toks);
    assert(a.term == e[0] && a.toks == tail(e) && a.cms == cms && a.args == stmt_words(s.toks));
    let s1 = PS { toks: a.toks, ..s };
    assert(r.st == s1 && !r.end && r.out.len() == k + 1);
    assert(list[k] == r.out[k]);
    assert(is_stmt(list[k], t, stmt_words(s.toks), tag));
    assert(m == mirror(o, tag, fname, tail(e), list, k + 1, ctx.s));
    lemma_mirror(r.st, r.out, ctx, list);
}
proof fn lemma_mirror_ignored(st: PS, out: Seq<Option<Directive>>, ctx: Sl<S>, list: Seq<Option<Directive>>)
    requires p_block(st, out, ctx).err is Nil, p_block(st, out, ctx).st.cfg.Errors == st.cfg.Errors, list == p_block(st, out, ctx).out,
        st.toks.len() > 0, st.toks[0].Error is Nil, !closes(st.toks[0]), !commented(st.toks[0]), !in_map(ctx.s), opts(st.pr).IgnoreDirectives.s.contains(st.toks[0].Value)
    ensures mirror(opts(st.pr), file_tag(st), st.cfg.File, st.toks, list, out.len() as int, ctx.s) == (p_block(st, out, ctx).st.toks, true)
    decreases st.toks.len(), 1int
{
    lemma_block(st, out, ctx);
    let t = st.toks[0]; let s = PS { toks: tail(st.toks), ..st }; let o = opts(st.pr);
    lemma_stmt(s, t, out, ctx); lemma_head_len(s, t, out, ctx); lemma_stmt_len(s, t, out, ctx);
    lemma_stmt_grow(s, t, out, ctx);
    let r = p_stmt(s, t, out, ctx);
    let fname = st.cfg.File; let tag = file_tag(st); let k = out.len() as int;
    let m = mirror(o, tag, fname, st.toks, list, k, ctx.s);
    if !r.end { lemma_grow(r.st, r.out, ctx); }
    assert(r.st.cfg.Errors == st.cfg.Errors);
    assert(pre(r.out, list));
    assert(s.toks.len() > 0);
    let a = args_from(fname, ctx.s, o.ParseComments, s.toks[0], tail(s.toks), Seq::empty(), Seq::empty(), GoErr::Nil);
    lemma_words(fname, ctx.s, o.ParseComments, s.toks[0], tail(s.toks), Seq::empty(), Seq::empty(), GoErr::Nil, s.toks);
    assert(a.ok && a.err is Nil);
    assert(Seq::<S>::empty() + stmt_words(s.toks) =~= stmt_words(s.toks));
    let cms = if o.ParseComments { stmt_comments(s.toks) } else { Seq::empty() };
    assert(Seq::<S>::empty() + cms =~= cms);
    let e = stmt_end(s.toks);
    assert(a.term == e[0] && a.toks == tail(e) && a.cms == cms && a.args == stmt_words(s.toks));
    let s1 = PS { toks: a.toks, ..s };
    lemma_braces(a.term);
    lemma_skip_nest(fname, a.toks, 0, 0);
    let sk = if opens(a.term) { skip(fname, tail(e), 0).0 } else { tail(e) };
    assert(r == drop_stmt(s1, out, a.term));
    assert(r.out == out && r.st == (PS { toks: sk, ..s }) && r.end == closes(a.term));
    if !r.end { assert(m == mirror(o, tag, fname, sk, list, k, ctx.s)); lemma_mirror(r.st, r.out, ctx, list); }
}
proof fn lemma_mirror_stmt(st: PS, out: Seq<Option<Directive>>, ctx: Sl<S>, list: Seq<Option<Directive>>)
    requires p_block(st, out, ctx).err is Nil, p_block(st, out, ctx).st.cfg.Errors == st.cfg.Errors, list == p_block(st, out, ctx).out,
        st.toks.len() > 0, st.toks[0].Error is Nil, !closes(st.toks[0]), !commented(st.toks[0]), !in_map(ctx.s), !opts(st.pr).IgnoreDirectives.s.contains(st.toks[0].Value)
    ensures mirror(opts(st.pr), file_tag(st), st.cfg.File, st.toks, list, out.len() as int, ctx.s) == (p_block(st, out, ctx).st.toks, true)
    decreases st.toks.len(), 1int
{
    lemma_block(st, out, ctx);
    let t = st.toks[0]; let s = PS { toks: tail(st.toks), ..st }; let o = opts(st.pr);
    lemma_stmt(s, t, out, ctx); lemma_head_len(s, t, out, ctx); lemma_stmt_len(s, t, out, ctx);
    lemma_stmt_grow(s, t, out, ctx);
    let r = p_stmt(s, t, out, ctx);
    let fname = st.cfg.File; let tag = file_tag(st); let k = out.len() as int;
    let m = mirror(o, tag, fname, st.toks, list, k, ctx.s);
    if !r.end { lemma_grow(r.st, r.out, ctx); }
    assert(r.st.cfg.Errors == st.cfg.Errors);
    assert(pre(r.out, list));
    assert(s.toks.len() > 0);
    let a = args_from(fname, ctx.s, o.ParseComments, s.toks[0], tail(s.toks), Seq::empty(), Seq::empty(), GoErr::Nil);
    lemma_words(fname, ctx.s, o.ParseComments, s.toks[0], tail(s.toks), Seq::empty(), Seq::empty(), GoErr::Nil, s.toks);
    assert(a.ok && a.err is Nil);
    assert(Seq::<S>::empty() + stmt_words(s.toks) =~= stmt_words(s.toks));
    let cms = if o.ParseComments { stmt_comments(s.toks) } else { Seq::empty() };
    assert(Seq::<S>::empty() + cms =~= cms);
    let e = stmt_end(s.toks);
    assert(a.term == e[0] && a.toks == tail(e) && a.cms == cms && a.args == stmt_words(s.toks));
    let s1 = PS { toks: a.toks, ..s };
    lemma_head_keeps(s, t, out, ctx);
    assert(s_head(s, t, out, ctx) is Ok);
    let h = s_head(s, t, out, ctx)->Ok_0;
    assert(h.d.Directive == t.Value && !closes(a.term) && h.st.toks == tail(e) && same_file(h.st, st));
    assert(h.d.Line == t.Line && h.d.File == tag && h.d.Comment is None && !h.d.IsMapBlockParameter && h.d.Block == sl_nil::<Option<Directive>>());
    assert(h.d.Args.s == (if t.Value == lit!("if") { if_args(stmt_words(s.toks)) } else { stmt_words(s.toks) }));
    lemma_mirror_kids(st, s, out, ctx, list, h);
    lemma_mirror(r.st, r.out, ctx, list);
    assert(r.end == false);
    let b = if opens(a.term) { mirror(o, tag, fname, tail(e), list[k]->0.Block.s, 0, enter_ctx(t.Value, ctx.s)) } else { (tail(e), list[k]->0.Block.s.len() == 0) };
    assert(m == mirror(o, tag, fname, b.0, list, k + 1 + cms.len(), ctx.s));
}
proof fn lemma_mirror_kids(st: PS, s: PS, out: Seq<Option<Directive>>, ctx: Sl<S>, list: Seq<Option<Directive>>, h: SH)
    requires st.toks.len() > 0, s == (PS { toks: tail(st.toks), ..st }), s_head(s, st.toks[0], out, ctx) == Ok::<SH, PR>(h), same_file(h.st, st), more_errors(st, h.st),
        p_stmt(s, st.toks[0], out, ctx).err is Nil, p_stmt(s, st.toks[0], out, ctx).st.cfg.Errors == st.cfg.Errors, pre(p_stmt(s, st.toks[0], out, ctx).out, list),
        h.d.Block == sl_nil::<Option<Directive>>(), h.tag == file_tag(st)
    ensures ({
        let r = p_stmt(s, st.toks[0], out, ctx); let k = out.len() as int;
        &&& same_file(r.st, st) && r.out.len() == k + 1 + h.cms.len() && r.end == false && k < list.len() && list[k] is Some
        &&& are_comments(list, k + 1, h.cms, h.line, h.tag)
        &&& list[k]->0 == Directive { Block: list[k]->0.Block, ..h.d }
        &&& r.st.toks.len() < st.toks.len()
        &&& (r.st.toks, true) == (if opens(h.term) { mirror(opts(st.pr), h.tag, st.cfg.File, h.st.toks, list[k]->0.Block.s, 0, enter_ctx(h.d.Directive, ctx.s)) } else { (h.st.toks, list[k]->0.Block.s.len() == 0) })
    })
    decreases st.toks.len(), 0int
{
    let t = st.toks[0]; let k = out.len() as int;
    lemma_stmt(s, t, out, ctx); lemma_head_len(s, t, out, ctx);
    let r = p_stmt(s, t, out, ctx);
    let b = p_block(h.st, Seq::empty(), inner_ctx(h, ctx));
    let d = if opens(h.term) { Directive { Block: sl_of(b.out), ..h.d } } else { h.d };
    if opens(h.term) {
        lemma_grow(h.st, Seq::empty(), inner_ctx(h, ctx));
        lemma_keeps(h.st, Seq::empty(), inner_ctx(h, ctx));
        lemma_block_len(h.st, Seq::empty(), inner_ctx(h, ctx));
        lemma_mirror(h.st, Seq::empty(), inner_ctx(h, ctx), b.out);
    }
    lemma_comments_pre(out.push(Some(d)), h.cms, h.cms.len() as int, h.line, h.tag);
    assert(r.out == with_comments(out.push(Some(d)), h.cms, h.cms.len() as int, h.line, h.tag));
    assert(r.out[k] == out.push(Some(d))[k]);
    assert(list[k] == Some(d));
    assert forall|j: int| 0 <= j < h.cms.len() implies k + 1 + j < list.len() && #[trigger] list[k + 1 + j] == Some(a_comment(h.cms[j], h.line, h.tag)) by {
        assert(r.out[k + 1 + j] == list[k + 1 + j]);
    }
}
