// ---- theorems over the contracts of parse and Parse ----
// every token read was without error, also in skipped blocks
pub open spec fn read_clean(a: Seq<NgxToken>, b: Seq<NgxToken>) -> bool decreases a.len() {
    a == b || a.len() > 0 && a[0].Error is Nil && read_clean(tail(a), b)
}
proof fn lemma_clean_add(a: Seq<NgxToken>, b: Seq<NgxToken>, c: Seq<NgxToken>)
    requires read_clean(a, b), read_clean(b, c)
    ensures read_clean(a, c)
    decreases a.len()
{ if a != b { lemma_clean_add(tail(a), b, c); } }
proof fn lemma_clean_skip(fname: S, toks: Seq<NgxToken>, d: int)
    requires skip(fname, toks, d).1 is Nil
    ensures read_clean(toks, skip(fname, toks, d).0)
    decreases toks.len()
{
    lemma_skip(fname, toks, d);
    if toks.len() > 0 {
        if toks[0].Error is Nil {
            if closes(toks[0]) { assert(read_clean(tail(toks), tail(toks))); if d > 0 { lemma_clean_skip(fname, tail(toks), d - 1); } }
            else if opens(toks[0]) { lemma_clean_skip(fname, tail(toks), d + 1); } else { lemma_clean_skip(fname, tail(toks), d); }
        } else { lemma_tok_err(fname, toks[0], Seq::empty()); }
    }
}
proof fn lemma_tok_err(fname: S, t: NgxToken, ctx: Seq<S>) ensures !(tok_err(fname, t, ctx) is Nil) { }
proof fn lemma_clean_args(fname: S, ctx: Seq<S>, coms: bool, t: NgxToken, toks: Seq<NgxToken>, args: Seq<S>, cms: Seq<S>, err: GoErr, all: Seq<NgxToken>)
    requires all.len() > 0, all[0] == t, tail(all) == toks, args_from(fname, ctx, coms, t, toks, args, cms, err).ok, args_from(fname, ctx, coms, t, toks, args, cms, err).err is Nil
    ensures err is Nil, read_clean(all, args_from(fname, ctx, coms, t, toks, args, cms, err).toks)
    decreases toks.len()
{
    lemma_args(fname, ctx, coms, t, toks, args, cms, err);
    if ends_stmt(t) { assert(read_clean(tail(all), toks)); }
    else if toks.len() > 0 {
        let e = if err is Nil && !(t.Error is Nil) { tok_err(fname, t, ctx) } else { err };
        let a2 = if commented(t) { args } else { args.push(t.Value) };
        let c2 = if commented(t) && coms { cms.push(rest1(t.Value)) } else { cms };
        lemma_clean_args(fname, ctx, coms, toks[0], tail(toks), a2, c2, e, toks);
        if !(t.Error is Nil) { lemma_tok_err(fname, t, ctx); }
    }
}
proof fn lemma_clean_head(st: PS, t: NgxToken, out: Seq<Option<Directive>>, ctx: Sl<S>)
    ensures match s_head(st, t, out, ctx) { Err(r) => r.err is Nil ==> read_clean(st.toks, r.st.toks), Ok(h) => read_clean(st.toks, h.st.toks) }
{
    let o = opts(st.pr); let fname = st.cfg.File;
    if !commented(t) && st.toks.len() > 0 {
        let a = args_from(fname, ctx.s, o.ParseComments, st.toks[0], tail(st.toks), Seq::empty(), Seq::empty(), GoErr::Nil);
        if a.ok && a.err is Nil {
            lemma_clean_args(fname, ctx.s, o.ParseComments, st.toks[0], tail(st.toks), Seq::empty(), Seq::empty(), GoErr::Nil, st.toks);
            if skip(fname, a.toks, 0).1 is Nil { lemma_clean_skip(fname, a.toks, 0); lemma_clean_add(st.toks, a.toks, skip(fname, a.toks, 0).0); }
        }
    }
}
// C08: when the statements of a block or file are returned, no token among those read carries an error
pub proof fn no_token_error_is_missed(st: PS, out: Seq<Option<Directive>>, ctx: Sl<S>)
    requires p_block(st, out, ctx).err is Nil
    ensures read_clean(st.toks, p_block(st, out, ctx).st.toks)
    decreases st.toks.len()
{
    lemma_block(st, out, ctx);
    if st.toks.len() > 0 {
        let t = st.toks[0]; let s = PS { toks: tail(st.toks), ..st };
        if !(t.Error is Nil) { lemma_tok_err(st.cfg.File, t, ctx.s); }
        else if closes(t) { assert(read_clean(tail(st.toks), tail(st.toks))); }
        else {
            lemma_stmt(s, t, out, ctx); lemma_stmt_len(s, t, out, ctx); lemma_clean_head(s, t, out, ctx); lemma_head_len(s, t, out, ctx);
            let r = p_stmt(s, t, out, ctx);
            match s_head(s, t, out, ctx) {
                Ok(h) => { if opens(h.term) { no_token_error_is_missed(h.st, Seq::empty(), inner_ctx(h, ctx)); lemma_clean_add(s.toks, h.st.toks, r.st.toks); } }
                Err(x) => { }
            }
            assert(read_clean(s.toks, r.st.toks));
            if !r.end { no_token_error_is_missed(r.st, r.out, ctx); lemma_clean_add(s.toks, r.st.toks, p_block(st, out, ctx).st.toks); }
        }
    }
}
// C07: a file that parses without error
pub proof fn file_mirrors_its_tokens(s: FS)
    requires s.pr.includes.s.len() > 0, f_file(s).err is Nil, f_file(s).st.cfg.Errors.s.len() == 0
    ensures mirror(opts(s.pr), file_tag(f_start(s)), s.pr.includes.s[0].path, f_start(s).toks, f_file(s).out, 0, s.pr.includes.s[0].ctx.s) == (f_file(s).st.toks, true),
        read_clean(f_start(s).toks, f_file(s).st.toks)
{
    let ctx = s.pr.includes.s[0].ctx;
    lemma_grow(f_start(s), Seq::empty(), ctx);
    lemma_mirror(f_start(s), Seq::empty(), ctx, f_file(s).out);
    no_token_error_is_missed(f_start(s), Seq::empty(), ctx);
}
