// ---- what the parser does along a tree ----
// Going through a list of directives in the order of their statements: the include tables afterwards, and whether
// each directive is one the parser accepts there and builds like this.
pub open spec fn bare(x: Directive) -> Directive { Directive { Includes: sl_nil(), Block: sl_nil(), ..x } }
pub open spec fn tr_from(x: Directive, w: Seq<S>) -> bool { x.Args == (if x.Directive == lit!("if") { Sl { s: if_args(w), nn: true } } else { sl_of(w) }) }
pub open spec fn tr_form(x: Directive, ctx: Seq<S>, o: ParseOptions) -> bool {
    let term = if x.Block.nn { lit!("{") } else { lit!(";") };
    exists|w: Seq<S>| #[trigger] tr_from(x, w) && accepts(x.Directive, w, term, ctx, o)
}
pub open spec fn tr_inc(fname: S, pr: parser, x: Directive, ctx: Sl<S>) -> (parser, bool) {
    if opts(pr).SingleFile || x.Directive != lit!("include") { (pr, x.Includes == sl_nil::<int>()) }
    else {
        let i = inc_names(pr, fname, bare(x), ctx.s); let n = i.names.len() as int;
        (add_incs(pr, fname, i.names, ctx, n), x.Args.s.len() > 0 && i.err is Nil && !i.hard && x.Includes == inc_list(pr, fname, i.names, ctx, sl_nil(), n))
    }
}
pub open spec fn kids_ctx(x: Directive, ctx: Sl<S>) -> Sl<S> { Sl { s: enter_ctx(x.Directive, ctx.s), nn: true } }
pub open spec fn tr_stmt(fname: S, tag: S, pr: parser, d: Option<Directive>, ctx: Sl<S>) -> (parser, bool)
    decreases d, 0nat
{
    let o = opts(pr);
    match d { None => (pr, false), Some(x) =>
        if is_comment(x) { (pr, o.ParseComments && x == a_comment(x.Comment->0, x.Line, tag)) }
        else if x.Comment is Some || x.File != tag { (pr, false) }
        else if in_map(ctx.s) {
            (pr, x.IsMapBlockParameter && x == bare(x) && x.Args == sl_of(x.Args.s) && map_accepts(ctx.s.last(), x.Directive, x.Args.s, lit!(";")))
        } else {
            let i = tr_inc(fname, pr, x, ctx);
            let k = if x.Block.nn { tr_list(fname, tag, i.0, x.Block.s, x.Block.s.len() as int, kids_ctx(x, ctx)) } else { (i.0, x.Block == sl_nil::<Option<Directive>>()) };
            (k.0, !x.IsMapBlockParameter && !o.IgnoreDirectives.s.contains(x.Directive) && tr_form(x, ctx.s, o) && i.1 && k.1)
        }
    }
}
#[verifier::opaque]
pub open spec fn tr_list(fname: S, tag: S, pr: parser, b: Seq<Option<Directive>>, k: int, ctx: Sl<S>) -> (parser, bool)
    decreases b, k
{
    if k <= 0 || k > b.len() { (pr, true) }
    else {
        let p = tr_list(fname, tag, pr, b, k - 1, ctx); let s = tr_stmt(fname, tag, p.0, b[k - 1], ctx);
        (s.0, p.1 && s.1)
    }
}
proof fn lemma_tr(fname: S, tag: S, pr: parser, b: Seq<Option<Directive>>, k: int, ctx: Sl<S>)
    requires 0 <= k
    ensures tr_list(fname, tag, pr, b, 0, ctx) == (pr, true),
        k < b.len() ==> ({ let p = tr_list(fname, tag, pr, b, k, ctx); let s = tr_stmt(fname, tag, p.0, b[k], ctx);
            tr_list(fname, tag, pr, b, k + 1, ctx) == (s.0, p.1 && s.1) })
{ reveal(tr_list); }
proof fn lemma_tr_block(fname: S, tag: S, pr: parser, x: Directive, ctx: Sl<S>)
    requires !is_comment(x), !in_map(ctx.s), x.Comment is None, x.File == tag
    ensures ({
        let i = tr_inc(fname, pr, x, ctx);
        let k = if x.Block.nn { tr_list(fname, tag, i.0, x.Block.s, x.Block.s.len() as int, kids_ctx(x, ctx)) } else { (i.0, x.Block == sl_nil::<Option<Directive>>()) };
        tr_stmt(fname, tag, pr, Some(x), ctx) == (k.0, !x.IsMapBlockParameter && !opts(pr).IgnoreDirectives.s.contains(x.Directive) && tr_form(x, ctx.s, opts(pr)) && i.1 && k.1)
    })
{ reveal(tr_list); }
proof fn lemma_tr_mono(fname: S, tag: S, pr: parser, b: Seq<Option<Directive>>, k: int, n: int, ctx: Sl<S>)
    requires 0 <= k <= n <= b.len(), tr_list(fname, tag, pr, b, n, ctx).1
    ensures tr_list(fname, tag, pr, b, k, ctx).1
    decreases n - k
{ if k < n { lemma_tr(fname, tag, pr, b, n - 1, ctx); lemma_tr_mono(fname, tag, pr, b, k, n - 1, ctx); } }

// ---- a parse without errors gives such a tree ----
pub open spec fn calm(st: PS, out: Seq<Option<Directive>>, ctx: Sl<S>) -> bool {
    p_block(st, out, ctx).err is Nil && p_block(st, out, ctx).st.cfg.Errors == st.cfg.Errors
}
pub open spec fn tr_st(st: PS, pr: parser, list: Seq<Option<Directive>>, k: int, ctx: Sl<S>) -> (parser, bool) { tr_list(st.cfg.File, file_tag(st), pr, list, k, ctx) }
pub proof fn lemma_tree(st: PS, out: Seq<Option<Directive>>, ctx: Sl<S>, list: Seq<Option<Directive>>, pr: parser)
    requires calm(st, out, ctx), list == p_block(st, out, ctx).out, tr_st(st, pr, list, out.len() as int, ctx) == (st.pr, true)
    ensures tr_st(st, pr, list, list.len() as int, ctx) == (p_block(st, out, ctx).st.pr, true)
    decreases st.toks.len(), 2int
{
    lemma_block(st, out, ctx);
    if st.toks.len() > 0 && st.toks[0].Error is Nil && !closes(st.toks[0]) {
        let t = st.toks[0]; let s = PS { toks: tail(st.toks), ..st };
        lemma_stmt_len(s, t, out, ctx); lemma_stmt_grow(s, t, out, ctx);
        let r = p_stmt(s, t, out, ctx);
        if !r.end { lemma_grow(r.st, r.out, ctx); }
        assert(r.st.cfg.Errors == st.cfg.Errors);
        lemma_tree_stmt(st, out, ctx, list, pr);
        if !r.end { lemma_tree(r.st, r.out, ctx, list, pr); }
    }
}
proof fn lemma_found(st: PS, e: GoErr)
    ensures found(st, e).cfg.Errors.s.len() == st.cfg.Errors.s.len() + 1
{ }
// one statement
proof fn lemma_tree_stmt(st: PS, out: Seq<Option<Directive>>, ctx: Sl<S>, list: Seq<Option<Directive>>, pr: parser)
    requires st.toks.len() > 0, st.toks[0].Error is Nil, !closes(st.toks[0]),
        tr_st(st, pr, list, out.len() as int, ctx) == (st.pr, true),
        ({ let r = p_stmt(PS { toks: tail(st.toks), ..st }, st.toks[0], out, ctx); r.err is Nil && r.st.cfg.Errors == st.cfg.Errors && pre(r.out, list) })
    ensures ({ let r = p_stmt(PS { toks: tail(st.toks), ..st }, st.toks[0], out, ctx);
        same_file(r.st, st) && tr_st(st, pr, list, r.out.len() as int, ctx) == (r.st.pr, true) })
    decreases st.toks.len(), 1int
{
    let t = st.toks[0]; let s = PS { toks: tail(st.toks), ..st }; let o = opts(st.pr);
    let fname = st.cfg.File; let tag = file_tag(st); let k = out.len() as int;
    let r = p_stmt(s, t, out, ctx);
    lemma_stmt(s, t, out, ctx); lemma_head_len(s, t, out, ctx); lemma_head_keeps(s, t, out, ctx);
    lemma_tr(fname, tag, pr, list, k, ctx);
    if commented(t) {
        if o.ParseComments { assert(list[k] == r.out[k]); assert(tr_stmt(fname, tag, st.pr, list[k], ctx) == (st.pr, true)); }
    } else {
        assert(s.toks.len() > 0);
        let a = args_from(fname, ctx.s, o.ParseComments, s.toks[0], tail(s.toks), Seq::empty(), Seq::empty(), GoErr::Nil);
        lemma_words(fname, ctx.s, o.ParseComments, s.toks[0], tail(s.toks), Seq::empty(), Seq::empty(), GoErr::Nil, s.toks);
        assert(a.ok && a.err is Nil);
        let s1 = PS { toks: a.toks, ..s };
        lemma_found(s1, perr(fname, Some(t.Line), ctx.s.last(), GoErr::Nil)); lemma_found(s1, perr(fname, Some(t.Line), last_block(ctx.s), GoErr::Nil));
        if in_map(ctx.s) {
            assert(r.out.len() == k + 1 && r.st == (PS { toks: a.toks, ..s }));
            assert(list[k] == r.out[k]);
            let x = list[k]->0;
            assert(a.term.Value == lit!(";"));
            assert(x == bare(x));
            assert(tr_stmt(fname, tag, st.pr, list[k], ctx) == (st.pr, true));
        } else if o.IgnoreDirectives.s.contains(t.Value) {
            assert(r.out == out && r.st.pr == st.pr && r.st.cfg == st.cfg);
        } else {
            match s_head(s, t, out, ctx) {
                Ok(h) => { lemma_tree_kids(st, s, out, ctx, list, pr, h, a); }
                Err(e) => { assert(false); }
            }
        }
    }
}
proof fn lemma_tree_head(s: PS, t: NgxToken, out: Seq<Option<Directive>>, ctx: Sl<S>, h: SH, a: Ar)
    requires s_head(s, t, out, ctx) == Ok::<SH, PR>(h), !commented(t), s.toks.len() > 0, h.st.cfg.Errors.s.len() <= s.cfg.Errors.s.len(),
        a == args_from(s.cfg.File, ctx.s, opts(s.pr).ParseComments, s.toks[0], tail(s.toks), Seq::empty(), Seq::empty(), GoErr::Nil)
    ensures !in_map(ctx.s), h.d == (Directive { Includes: h.d.Includes, Args: h.d.Args, ..plain(t, file_tag(s), a.args) }), tr_from(h.d, a.args),
        !opts(s.pr).IgnoreDirectives.s.contains(t.Value), accepts(t.Value, a.args, a.term.Value, ctx.s, opts(s.pr)), h.term == a.term, h.cms == a.cms, h.line == t.Line, h.tag == file_tag(s),
        tr_inc(s.cfg.File, s.pr, h.d, ctx) == (h.st.pr, true), h.st == (PS { toks: a.toks, pr: h.st.pr, ..s }),
{
    let o = opts(s.pr); let fname = s.cfg.File;
    let s1 = PS { toks: a.toks, ..s };
    let d = plain(t, file_tag(s), a.args);
    let d2 = if d.Directive == lit!("if") { Directive { Args: Sl { s: if_args(d.Args.s), nn: true }, ..d } } else { d };
    let r = p_include(s1, d2, ctx);
    assert(h.d == r.d && h.st == r.st);
    if !(o.SingleFile || d2.Directive != lit!("include")) {
        let i = inc_names(s1.pr, fname, d2, ctx.s);
        assert(!i.hard);
        if !(i.err is Nil) { assert(found(s1, i.err).cfg.Errors.s.len() == s.cfg.Errors.s.len() + 1); }
        assert(bare(h.d) == d2);
    }
}
proof fn lemma_tree_kids(st: PS, s: PS, out: Seq<Option<Directive>>, ctx: Sl<S>, list: Seq<Option<Directive>>, pr: parser, h: SH, a: Ar)
    requires st.toks.len() > 0, st.toks[0].Error is Nil, !closes(st.toks[0]), !commented(st.toks[0]), s == (PS { toks: tail(st.toks), ..st }), s.toks.len() > 0,
        tr_st(st, pr, list, out.len() as int, ctx) == (st.pr, true), s_head(s, st.toks[0], out, ctx) == Ok::<SH, PR>(h),
        a == args_from(s.cfg.File, ctx.s, opts(s.pr).ParseComments, s.toks[0], tail(s.toks), Seq::empty(), Seq::empty(), GoErr::Nil), a.ok, ends_stmt(a.term),
        a.cms.len() > 0 ==> opts(s.pr).ParseComments, h.st.toks.len() < s.toks.len(),
        ({ let r = p_stmt(s, st.toks[0], out, ctx); r.err is Nil && r.st.cfg.Errors == st.cfg.Errors && pre(r.out, list) })
    ensures ({ let r = p_stmt(s, st.toks[0], out, ctx); same_file(r.st, st) && tr_st(st, pr, list, r.out.len() as int, ctx) == (r.st.pr, true) })
    decreases st.toks.len(), 0int
{
    let t = st.toks[0]; let o = opts(st.pr);
    let fname = st.cfg.File; let tag = file_tag(st); let k = out.len() as int;
    lemma_stmt(s, t, out, ctx); lemma_head_keeps(s, t, out, ctx);
    let r = p_stmt(s, t, out, ctx);
    let c2 = inner_ctx(h, ctx);
    let b = p_block(h.st, Seq::empty(), c2);
    if opens(h.term) { lemma_grow(h.st, Seq::empty(), c2); lemma_keeps(h.st, Seq::empty(), c2); }
    assert(h.st.cfg.Errors.s.len() <= s.cfg.Errors.s.len());
    lemma_tree_head(s, t, out, ctx, h, a);
    assert(a.term.Value != lit!("}"));
    let x = if opens(h.term) { Directive { Block: sl_of(b.out), ..h.d } } else { h.d };
    if opens(h.term) {
        lemma_tr(fname, tag, h.st.pr, b.out, 0, c2);
        lemma_tree(h.st, Seq::empty(), c2, b.out, h.st.pr);
        assert(kids_ctx(x, ctx) == c2);
    }
    let pr2 = r.st.pr;
    assert(bare(x) == bare(h.d));
    assert(tr_inc(fname, st.pr, x, ctx) == tr_inc(fname, st.pr, h.d, ctx));
    lits_ax();
    assert(tr_from(x, a.args));
    assert(tr_form(x, ctx.s, o));
    lemma_tr_block(fname, tag, st.pr, x, ctx);
    assert(tr_stmt(fname, tag, st.pr, Some(x), ctx) == (pr2, true));
    let n = h.cms.len() as int;
    lemma_comments_pre(out.push(Some(x)), h.cms, n, h.line, h.tag);
    assert(r.out == with_comments(out.push(Some(x)), h.cms, n, h.line, h.tag));
    assert(r.out[k] == out.push(Some(x))[k]);
    assert(list[k] == Some(x));
    lemma_tr(fname, tag, pr, list, k, ctx);
    lemma_tree_comments(fname, tag, pr, list, k + 1, n, h.cms, h.line, ctx, pr2, r.out);
}
proof fn lemma_tree_comments(fname: S, tag: S, pr: parser, list: Seq<Option<Directive>>, k: int, n: int, cms: Seq<S>, line: int, ctx: Sl<S>, pr2: parser, out: Seq<Option<Directive>>)
    requires 0 <= k, 0 <= n <= cms.len(), tr_list(fname, tag, pr, list, k, ctx) == (pr2, true), n > 0 ==> opts(pr2).ParseComments,
        out.len() >= k + n, pre(out, list), forall|j: int| 0 <= j < n ==> #[trigger] out[k + j] == Some(a_comment(cms[j], line, tag))
    ensures tr_list(fname, tag, pr, list, k + n, ctx) == (pr2, true)
    decreases n
{
    if n > 0 {
        lemma_tree_comments(fname, tag, pr, list, k, n - 1, cms, line, ctx, pr2, out);
        let m = k + (n - 1);
        assert(out[m] == list[m]);
        lemma_tr(fname, tag, pr, list, m, ctx);
        assert(tr_stmt(fname, tag, pr2, list[m], ctx) == (pr2, true));
    }
}

// ---- parsing the tokens of such a tree gives the tree back ----
// the same directives, on whatever lines
pub open spec fn alike(a: Option<Directive>, b: Option<Directive>) -> bool decreases a, 0nat {
    match a { None => b is None, Some(x) => b matches Some(y)
        && x == (Directive { Line: x.Line, Block: x.Block, ..y }) && x.Block.nn == y.Block.nn && alikes(x.Block.s, y.Block.s) }
}
pub open spec fn alikes(a: Seq<Option<Directive>>, b: Seq<Option<Directive>>) -> bool decreases a, a.len() + 1 {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> alike(#[trigger] a[i], b[i])
}
pub open spec fn tok_is(t: NgxToken, k: Tk) -> bool { t.Value == k.0 && t.IsQuoted == k.1 && t.Error is Nil }
pub open spec fn heads(toks: Seq<NgxToken>, ks: Seq<Tk>) -> bool { ks.len() <= toks.len() && forall|i: int| 0 <= i < ks.len() ==> tok_is(#[trigger] toks[i], ks[i]) }
pub open spec fn past(toks: Seq<NgxToken>, n: nat) -> Seq<NgxToken> { toks.subrange(n as int, toks.len() as int) }
proof fn lemma_heads(toks: Seq<NgxToken>, a: Seq<Tk>, b: Seq<Tk>)
    requires heads(toks, a + b)
    ensures heads(toks, a), heads(past(toks, a.len()), b), past(past(toks, a.len()), b.len()) == past(toks, (a + b).len())
{
    assert forall|i: int| 0 <= i < a.len() implies tok_is(#[trigger] toks[i], a[i]) by { assert((a + b)[i] == a[i]); }
    let p = past(toks, a.len());
    assert forall|i: int| 0 <= i < b.len() implies tok_is(#[trigger] p[i], b[i]) by { assert((a + b)[a.len() + i] == b[i]); assert(p[i] == toks[a.len() + i]); }
    assert(past(p, b.len()) =~= past(toks, (a + b).len()));
}
// the tokens of the directives from the k-th on
pub open spec fn t_from(b: Seq<Option<Directive>>, k: int) -> Seq<Tk> decreases b.len() - k {
    if k < 0 || k >= b.len() { Seq::empty() } else { t_stmt(b[k]) + t_from(b, k + 1) }
}
proof fn lemma_t_from(b: Seq<Option<Directive>>, k: int)
    requires 0 <= k <= b.len()
    ensures t_body(b, b.len() as int) == t_body(b, k) + t_from(b, k)
    decreases b.len() - k
{
    if k < b.len() { lemma_t_from(b, k + 1); lemma_t_body(b, k); assert(t_body(b, k) + t_stmt(b[k]) + t_from(b, k + 1) =~= t_body(b, k) + t_from(b, k)); }
    else { assert(t_body(b, k) + t_from(b, k) =~= t_body(b, k)); }
}
proof fn lemma_t_all(b: Seq<Option<Directive>>)
    ensures t_from(b, 0) == t_body(b, b.len() as int)
{ lemma_t_from(b, 0); reveal(t_body); assert(t_body(b, 0) + t_from(b, 0) =~= t_from(b, 0)); }
// a token that is a word of a statement
pub open spec fn word_tk(k: Tk) -> bool { k.1 || (k.0.len() > 0 && k.0[0] != 35u8 && k.0[0] != 123u8 && k.0[0] != 59u8 && k.0[0] != 125u8) }
pub open spec fn words_tk(ks: Seq<Tk>) -> bool { forall|i: int| 0 <= i < ks.len() ==> word_tk(#[trigger] ks[i]) }
pub open spec fn vals(ks: Seq<Tk>) -> Seq<S> { Seq::new(ks.len(), |i: int| ks[i].0) }
proof fn lemma_word_tk(t: NgxToken, k: Tk)
    requires tok_is(t, k), word_tk(k)
    ensures !ends_stmt(t), !commented(t), !closes(t)
{
    lits_ax();
    if !k.1 {
        assert(lit!("#")[0] == 35u8 && lit!("{")[0] == 123u8 && lit!(";")[0] == 59u8 && lit!("}")[0] == 125u8);
        if has_prefix(t.Value, lit!("#")) { assert(t.Value.subrange(0, 1)[0] == lit!("#")[0]); }
    }
}
proof fn lemma_first_byte(s: S)
    requires fine(s)
    ensures word_tk((s, needs_quote(s))), !needs_quote(s) ==> s.len() > 0
{
    let rs = runes(s);
    if !needs_quote(s) {
        lemma_unquoted(rs);
        let r = rs[0]; let t = rs.subrange(1, rs.len() as int);
        ax_rune(r);
        assert(s == rune_str(r) + cat(t));
        assert(printable(r));
        assert(rune_str(r).len() > 0);
        assert(s[0] == rune_str(r)[0]);
        if ascii(r) { assert(s[0] == r as u8); } else { assert(rune_str(r)[0] >= 128u8); }
    }
}
proof fn lemma_words_tk(a: Seq<S>, k: int)
    requires 0 <= k <= a.len(), forall|i: int| 0 <= i < a.len() ==> fine(#[trigger] a[i])
    ensures words_tk(t_words(a, k)), vals(t_words(a, k)) == a.subrange(0, k)
    decreases k
{
    if k > 0 {
        lemma_words_tk(a, k - 1); lemma_first_byte(a[k - 1]);
        let p = t_words(a, k - 1);
        assert(vals(t_words(a, k)) =~= vals(p).push(a[k - 1]));
        assert(a.subrange(0, k) =~= a.subrange(0, k - 1).push(a[k - 1]));
    } else { assert(vals(t_words(a, k)) =~= a.subrange(0, k)); }
}
// the words of a statement up to its terminator
proof fn lemma_args_back(fname: S, ctx: Seq<S>, coms: bool, toks: Seq<NgxToken>, ks: Seq<Tk>, end: Tk, args: Seq<S>, cms: Seq<S>)
    requires heads(toks, ks.push(end)), words_tk(ks), !end.1, end.0 == lit!("{") || end.0 == lit!(";")
    ensures args_from(fname, ctx, coms, toks[0], tail(toks), args, cms, GoErr::Nil) == (Ar { toks: past(toks, ks.len() + 1), args: args + vals(ks), cms: cms, err: GoErr::Nil, term: toks[ks.len() as int], ok: true })
    decreases ks.len()
{
    let k1 = ks.push(end);
    let t = toks[0];
    lemma_args(fname, ctx, coms, t, tail(toks), args, cms, GoErr::Nil);
    if ks.len() == 0 {
        assert(tok_is(toks[0], k1[0]));
        assert(args + vals(ks) =~= args); assert(past(toks, 1) =~= tail(toks));
    } else {
        let r = ks.subrange(1, ks.len() as int);
        assert(tok_is(toks[0], k1[0])); assert(k1[0] == ks[0]);
        lemma_word_tk(t, ks[0]);
        let tt = tail(toks); let r1 = r.push(end);
        assert forall|i: int| 0 <= i < r1.len() implies tok_is(#[trigger] tt[i], r1[i]) by { assert(tok_is(toks[i + 1], k1[i + 1])); }
        assert forall|i: int| 0 <= i < r.len() implies word_tk(#[trigger] r[i]) by { assert(r[i] == ks[i + 1]); }
        lemma_args_back(fname, ctx, coms, tt, r, end, args.push(t.Value), cms);
        assert(args.push(t.Value) + vals(r) =~= args + vals(ks));
        assert(past(tt, r.len() + 1) =~= past(toks, ks.len() + 1));
    }
}

// ---- the words of an if condition ----
// assumed: strings.TrimLeftFunc and TrimRightFunc leave alone what has no blank at that end
#[verifier::external_body]
pub proof fn ax_trim(rs: Seq<int>)
    requires readable(rs)
    ensures rs.len() == 0 || !uni_space(rs[0]) ==> trim_left_func(cat(rs), fnc!("unicode.IsSpace")) == cat(rs),
        rs.len() == 0 || !uni_space(rs.last()) ==> trim_right_func(cat(rs), fnc!("unicode.IsSpace")) == cat(rs)
{ }
proof fn lemma_untrimmed(s: S)
    requires fine(s), !needs_quote(s)
    ensures trim_l(s) == s, trim_r(s) == s, trim_l(s + lit!(")")) == s + lit!(")"), s.len() > 0
{
    lits_ax();
    let rs = runes(s);
    lemma_unquoted(rs); lemma_plain_tail(rs); lemma_first_byte(s); ax_trim(rs);
    assert(wordy(rs[0])); assert(wordy(rs[rs.len() - 1]));
    lemma_lit1(41); assert(lit!(")") =~= seq![41u8]); ax_rune(41);
    let q = rs + seq![41int];
    lemma_qcat(rs, seq![41int]);
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] printable(q[i]) by { if i < rs.len() { assert(printable(rs[i])); } }
    assert(q[0] == rs[0]);
    ax_trim(q);
}
proof fn lemma_untrimmed_none()
    ensures trim_l(sempty()) == sempty(), trim_r(sempty()) == sempty(), trim_l(lit!(")")) == lit!(")")
{
    lits_ax();
    let e = Seq::<int>::empty(); ax_trim(e); assert(cat(e) == sempty());
    lemma_lit1(41); assert(lit!(")") =~= seq![41u8]); ax_rune(41);
    ax_trim(seq![41int]);
}
// the words before the closing parenthesis is put there
pub open spec fn c_words(a: Seq<S>, k: int) -> Seq<S> decreases k {
    if k <= 0 { seq![lit!("(")] } else if k == 1 && !needs_quote(a[0]) { seq![lit!("(") + a[0]] } else { c_words(a, k - 1).push(a[k - 1]) }
}
proof fn lemma_c_words(a: Seq<S>, k: int)
    requires 0 <= k <= a.len(), forall|i: int| 0 <= i < a.len() ==> fine(#[trigger] a[i])
    ensures words_tk(t_cond(a, k)), vals(t_cond(a, k)) == c_words(a, k), t_cond(a, k).len() > 0,
        t_cond(a, k).last().1 == (k > 0 && needs_quote(a[k - 1]))
    decreases k
{
    lits_ax();
    assert(lit!("(")[0] == 40u8);
    if k <= 0 { assert(vals(t_cond(a, k)) =~= c_words(a, k)); }
    else if k == 1 && !needs_quote(a[0]) { assert((lit!("(") + a[0])[0] == 40u8); assert(vals(t_cond(a, k)) =~= c_words(a, k)); }
    else {
        lemma_c_words(a, k - 1); lemma_first_byte(a[k - 1]);
        assert(vals(t_cond(a, k)) =~= c_words(a, k));
    }
}
// after k words: the first is "(" or "(" and the first argument
proof fn lemma_c_form(a: Seq<S>, k: int)
    requires 0 < k <= a.len()
    ensures ({ let w = c_words(a, k);
        if needs_quote(a[0]) { w == seq![lit!("(")] + a.subrange(0, k) } else { w == seq![lit!("(") + a[0]] + a.subrange(1, k) } })
    decreases k
{
    if k == 1 {
        reveal_with_fuel(c_words, 3);
        if needs_quote(a[0]) { assert(c_words(a, 1) =~= seq![lit!("(")] + a.subrange(0, 1)); } else { assert(c_words(a, 1) =~= seq![lit!("(") + a[0]] + a.subrange(1, 1)); }
    } else {
        lemma_c_form(a, k - 1);
        if needs_quote(a[0]) { assert(seq![lit!("(")] + a.subrange(0, k) =~= (seq![lit!("(")] + a.subrange(0, k - 1)).push(a[k - 1])); }
        else { assert(seq![lit!("(") + a[0]] + a.subrange(1, k) =~= (seq![lit!("(") + a[0]] + a.subrange(1, k - 1)).push(a[k - 1])); }
    }
}
pub open spec fn w_cond(a: Seq<S>) -> Seq<S> {
    let w = c_words(a, a.len() as int);
    if needs_quote(a.last()) { w.push(lit!(")")) } else { w.drop_last().push(w.last() + lit!(")")) }
}
proof fn lemma_w_cond(a: Seq<S>)
    requires a.len() > 0, forall|i: int| 0 <= i < a.len() ==> fine(#[trigger] a[i])
    ensures words_tk(t_paren(t_cond(a, a.len() as int))), vals(t_paren(t_cond(a, a.len() as int))) == w_cond(a)
{
    lits_ax();
    let n = a.len() as int; let c = t_cond(a, n);
    lemma_c_words(a, n);
    assert(lit!(")")[0] == 41u8);
    if needs_quote(a.last()) { assert(vals(t_paren(c)) =~= w_cond(a)); }
    else {
        assert(word_tk(c[c.len() - 1]));
        assert((c.last().0 + lit!(")"))[0] == c.last().0[0]);
        assert(vals(t_paren(c)) =~= w_cond(a));
        assert forall|i: int| 0 <= i < t_paren(c).len() implies word_tk(#[trigger] t_paren(c)[i]) by { if i < c.len() - 1 { assert(t_paren(c)[i] == c[i]); } }
    }
}
proof fn lemma_cut(s: S, p: S)
    ensures has_suffix(s + p, p), trim_suffix(s + p, p) == s, has_prefix(p + s, p), trim_prefix(p + s, p) == s
{
    assert((s + p).subrange(s.len() as int, (s + p).len() as int) =~= p); assert((s + p).subrange(0, s.len() as int) =~= s);
    assert((p + s).subrange(0, p.len() as int) =~= p); assert((p + s).subrange(p.len() as int, (p + s).len() as int) =~= s);
}
// taking the parentheses away again
proof fn lemma_if_back(a: Seq<S>)
    requires a.len() > 0, forall|i: int| 0 <= i < a.len() ==> fine(#[trigger] a[i])
    ensures if_args(w_cond(a)) == a, valid_expr(w_cond(a))
{
    lits_ax();
    let n = a.len() as int; let w = w_cond(a); let lp = lit!("("); let rp = lit!(")");
    assert(lp.len() == 1 && rp.len() == 1);
    lemma_c_form(a, n); lemma_untrimmed_none();
    lemma_cut(sempty(), lp); lemma_cut(sempty(), rp); lemma_cut(a[0], lp); lemma_cut(a.last(), rp); lemma_cut(a[0] + rp, lp); lemma_cut(lp + a[0], rp);
    assert(lp + sempty() =~= lp); assert(sempty() + rp =~= rp); assert(lp + (a[0] + rp) =~= lp + a[0] + rp);
    if !needs_quote(a[0]) { lemma_untrimmed(a[0]); }
    if !needs_quote(a.last()) { lemma_untrimmed(a.last()); }
    if n == 1 {
        if needs_quote(a[0]) {
            assert(w =~= seq![lp, a[0], rp]);
            assert(w.subrange(1, 2) =~= seq![a[0]]);
            assert(if_args(w) =~= a);
        } else {
            assert(c_words(a, 1) =~= seq![lp + a[0]]);
            assert(w =~= seq![lp + a[0] + rp]);
            assert(if_args(w) =~= a);
        }
    } else if needs_quote(a[0]) {
        if needs_quote(a.last()) { assert(w =~= seq![lp] + a + seq![rp]); assert(w.subrange(1, w.len() - 1) =~= a); assert(if_args(w) =~= a); }
        else { assert(a.subrange(0, n) =~= a); assert(w =~= seq![lp] + a.subrange(0, n - 1) + seq![a.last() + rp]); assert(w.subrange(1, w.len() - 1) =~= a.subrange(0, n - 1)); assert(if_args(w) =~= a); }
    } else {
        if needs_quote(a.last()) { assert(w =~= seq![lp + a[0]] + a.subrange(1, n) + seq![rp]); assert(w.subrange(1, w.len() - 1) =~= a.subrange(1, n)); assert(if_args(w) =~= a); }
        else { assert(w =~= seq![lp + a[0]] + a.subrange(1, n - 1) + seq![a.last() + rp]); assert(w.subrange(1, w.len() - 1) =~= a.subrange(1, n - 1)); assert(if_args(w) =~= a); }
    }
}

// ---- reading the statements again ----
// if takes any number of arguments, as NGINX defines it
pub open spec fn if_any(o: ParseOptions) -> bool {
    let ms = all_masks(o.DirectiveSources.s, lit!("if"));
    forall|i: int| 0 <= i < ms.len() ==> bit(#[trigger] ms[i], 0x1000) || bit(ms[i], 0x800)
}
proof fn lemma_if_accept(w: Seq<S>, w2: Seq<S>, term: S, ctx: Seq<S>, o: ParseOptions)
    requires if_any(o), accepts(lit!("if"), w, term, ctx, o), valid_expr(w2)
    ensures accepts(lit!("if"), w2, term, ctx, o)
{
    let fs = o.DirectiveSources.s; let ms = all_masks(fs, lit!("if")); let k = ctx_key(ctx);
    if is_known(fs, lit!("if")) && ctx_known(k) && !(o.SkipDirectiveContextCheck && o.SkipDirectiveArgsCheck) {
        let i = choose|i: int| 0 <= i < ms.len() && permits(#[trigger] ms[i], k, w, term, o);
        assert(bit(ms[i], 0x1000) || bit(ms[i], 0x800));
        assert(args_fit(ms[i], w2));
        assert(permits(ms[i], k, w2, term, o));
    }
}
pub open spec fn fines(x: Directive) -> bool { fine(x.Directive) && forall|i: int| 0 <= i < x.Args.s.len() ==> fine(#[trigger] x.Args.s[i]) }
// the name and words read give the directive again
proof fn lemma_form_back(fname: S, tag: S, pr: parser, x: Directive, ctx: Sl<S>, ks: Seq<Tk>)
    requires if_any(opts(pr)), fine_one(x), !is_comment(x), !x.IsMapBlockParameter, tr_form(x, ctx.s, opts(pr)), ks == t_args(x)
    ensures words_tk(ks), tr_from(x, vals(ks)), accepts(x.Directive, vals(ks), if x.Block.nn { lit!("{") } else { lit!(";") }, ctx.s, opts(pr))
{
    let o = opts(pr); let term = if x.Block.nn { lit!("{") } else { lit!(";") };
    let w = choose|w: Seq<S>| #[trigger] tr_from(x, w) && accepts(x.Directive, w, term, ctx.s, o);
    let a = x.Args.s;
    if is_if(x) {
        lemma_w_cond(a); lemma_if_back(a);
        lemma_if_accept(w, w_cond(a), term, ctx.s, o);
    } else {
        lemma_words_tk(a, a.len() as int);
        assert(a.subrange(0, a.len() as int) =~= a);
        assert(w == a);
    }
}
pub open spec fn told_all(st: PS, toks: Seq<NgxToken>, pr: parser) -> PS { PS { toks: toks, pr: pr, ..st } }
pub open spec fn calm_stmt(st: PS, toks: Seq<NgxToken>, d: Option<Directive>, pr: parser, out: Seq<Option<Directive>>, r: PR) -> bool {
    r.err is Nil && !r.end && r.st == told_all(st, toks, pr) && r.out.len() == out.len() + 1 && pre(out, r.out) && alike(d, r.out.last())
}
proof fn lemma_comment_back(st: PS, d: Option<Directive>, out: Seq<Option<Directive>>, ctx: Sl<S>)
    requires heads(st.toks, t_stmt(d)), d is Some, is_comment(d->0), tr_stmt(st.cfg.File, file_tag(st), st.pr, d, ctx).1
    ensures st.toks.len() > 0, st.toks[0].Error is Nil, !closes(st.toks[0]), t_stmt(d).len() == 1,
        calm_stmt(st, past(st.toks, t_stmt(d).len()), d, tr_stmt(st.cfg.File, file_tag(st), st.pr, d, ctx).0, out, p_stmt(PS { toks: tail(st.toks), ..st }, st.toks[0], out, ctx))
{
    lits_ax();
    let x = d->0; let c = x.Comment->0; let t = st.toks[0]; let h = lit!("#");
    assert(tok_is(st.toks[0], t_stmt(d)[0]));
    assert(t.Value == h + c);
    lemma_cut(c, h);
    assert(h.len() == 1 && h[0] == 35u8 && lit!("}")[0] == 125u8 && (h + c)[0] == 35u8);
    let s = PS { toks: tail(st.toks), ..st };
    lemma_stmt(s, t, out, ctx);
    let y = a_comment(c, t.Line, file_tag(st));
    assert(rest1(t.Value) == c);
    let r = p_stmt(s, t, out, ctx);
    assert(r.out == out.push(Some(y)));
    assert(x.Block.s.len() == 0);
    assert(alikes(x.Block.s, y.Block.s));
    assert(alike(d, Some(y)));
}
// up to the terminator
proof fn lemma_head_back(st: PS, x: Directive, out: Seq<Option<Directive>>, ctx: Sl<S>, end: Tk)
    requires heads(st.toks, t_head(x).push(end)), !end.1, end.0 == (if x.Block.nn { lit!("{") } else { lit!(";") }), if_any(opts(st.pr)),
        !is_comment(x), fine_one(x), tr_stmt(st.cfg.File, file_tag(st), st.pr, Some(x), ctx).1
    ensures st.toks.len() > 0, st.toks[0].Error is Nil, !closes(st.toks[0]),
        ({
            let s = PS { toks: tail(st.toks), ..st }; let t = st.toks[0]; let p = past(st.toks, t_head(x).len() + 1); let k = t_head(x).len() as int;
            let r = s_head(s, t, out, ctx);
            if in_map(ctx.s) { end.0 == lit!(";") && r == Err::<SH, PR>(PR { st: PS { toks: p, ..st }, out: out.push(Some(Directive { Line: t.Line, ..x })), err: GoErr::Nil, end: false }) }
            else {
                let i = tr_inc(st.cfg.File, st.pr, x, ctx);
                i.1 && r == Ok::<SH, PR>(SH { st: told_all(st, p, i.0), d: Directive { Line: t.Line, Block: sl_nil(), ..x }, term: st.toks[k], cms: Seq::empty(), line: t.Line, tag: file_tag(st) })
            }
        })
{
    let o = opts(st.pr); let fname = st.cfg.File; let tag = file_tag(st);
    let s = PS { toks: tail(st.toks), ..st }; let t = st.toks[0];
    let nm: Tk = (x.Directive, needs_quote(x.Directive)); let ks = t_args(x);
    let all = t_head(x).push(end);
    lits_ax();
    assert(tok_is(st.toks[0], all[0])); assert(all[0] == nm);
    lemma_first_byte(x.Directive); lemma_word_tk(t, nm);
    assert forall|i: int| 0 <= i < ks.push(end).len() implies tok_is(#[trigger] s.toks[i], ks.push(end)[i]) by { assert(tok_is(st.toks[i + 1], all[i + 1])); }
    if in_map(ctx.s) {
        lemma_words_tk(x.Args.s, x.Args.s.len() as int);
        assert(x.Args.s.subrange(0, x.Args.s.len() as int) =~= x.Args.s);
    } else {
        lemma_tr_block(fname, tag, st.pr, x, ctx);
        lemma_form_back(fname, tag, st.pr, x, ctx, ks);
    }
    lemma_args_back(fname, ctx.s, o.ParseComments, s.toks, ks, end, Seq::empty(), Seq::empty());
    assert(Seq::<S>::empty() + vals(ks) =~= vals(ks));
    assert(past(s.toks, ks.len() + 1) =~= past(st.toks, t_head(x).len() + 1));
    assert(s.toks[ks.len() as int] == st.toks[t_head(x).len() as int]);
    let p = past(st.toks, t_head(x).len() + 1);
    let s1 = PS { toks: p, ..s };
    let d = plain(t, tag, vals(ks));
    if !in_map(ctx.s) {
        let d2 = if d.Directive == lit!("if") { Directive { Args: Sl { s: if_args(d.Args.s), nn: true }, ..d } } else { d };
        assert(d2 == Directive { Line: t.Line, ..bare(x) });
        let r = p_include(s1, d2, ctx);
        if !(o.SingleFile || x.Directive != lit!("include")) {
            assert(inc_names(st.pr, fname, bare(x), ctx.s).err is Nil);
            assert(inc_names(st.pr, fname, d2, ctx.s) == inc_names(st.pr, fname, bare(x), ctx.s));
        }
    }
}

// a statement, with its block
proof fn lemma_stmt_back(st: PS, d: Option<Directive>, out: Seq<Option<Directive>>, ctx: Sl<S>, bo: BuildOptions)
    requires heads(st.toks, t_stmt(d)), if_any(opts(st.pr)), fine_dir(d, bo), tr_stmt(st.cfg.File, file_tag(st), st.pr, d, ctx).1
    ensures st.toks.len() > 0, st.toks[0].Error is Nil, !closes(st.toks[0]), t_stmt(d).len() > 0,
        calm_stmt(st, past(st.toks, t_stmt(d).len()), d, tr_stmt(st.cfg.File, file_tag(st), st.pr, d, ctx).0, out, p_stmt(PS { toks: tail(st.toks), ..st }, st.toks[0], out, ctx))
    decreases d, 0nat
{
    let x = d->0; let fname = st.cfg.File; let tag = file_tag(st);
    if is_comment(x) { lemma_comment_back(st, d, out, ctx); }
    else {
        lits_ax();
        let hd = t_head(x);
        let end: Tk = if x.Block.nn { (lit!("{"), false) } else { (lit!(";"), false) };
        let m = x.Block.s.len() as int; let kids = t_body(x.Block.s, m); let cl = tk1(lit!("}"));
        let all = t_stmt(d);
        if x.Block.nn {
            lemma_t_block(x);
            assert(all =~= hd.push(end) + (kids + cl));
            lemma_heads(st.toks, hd.push(end), kids + cl);
        } else { assert(all =~= hd.push(end)); }
        lemma_head_back(st, x, out, ctx, end);
        let s = PS { toks: tail(st.toks), ..st }; let t = st.toks[0];
        lemma_stmt(s, t, out, ctx);
        let r = p_stmt(s, t, out, ctx);
        assert(tok_is(st.toks[hd.len() as int], hd.push(end)[hd.len() as int]));
        let p = past(st.toks, hd.len() + 1);
        if in_map(ctx.s) {
            let y = Directive { Line: t.Line, ..x };
            assert(x.Block.s.len() == 0);
            assert(alikes(x.Block.s, y.Block.s));
            assert(alike(d, Some(y)));
            assert(r.out == out.push(Some(y)));
            assert(!x.Block.nn);
        } else {
            lemma_tr_block(fname, tag, st.pr, x, ctx);
            let i = tr_inc(fname, st.pr, x, ctx);
            let h = s_head(s, t, out, ctx)->Ok_0;
            let e = Seq::<Option<Directive>>::empty();
            if x.Block.nn {
                let c2 = inner_ctx(h, ctx);
                assert(c2 == kids_ctx(x, ctx));
                lemma_incs_keep(st.pr, fname, inc_names(st.pr, fname, bare(x), ctx.s).names, ctx, inc_names(st.pr, fname, bare(x), ctx.s).names.len() as int);
                assert(same_file(h.st, st));
                lemma_t_all(x.Block.s);
                lemma_heads(p, kids, cl);
                let rest = past(p, kids.len());
                assert(tok_is(rest[0], cl[0]));
                lemma_tr(fname, tag, h.st.pr, x.Block.s, 0, c2);
                lemma_list_back(h.st, x.Block.s, 0, e, c2, bo, x.Line, h.st.pr);
                let b = p_block(h.st, e, c2);
                assert(tail(rest) =~= past(st.toks, all.len()));
                let y = Directive { Line: t.Line, Block: sl_of(b.out), ..x };
                assert(alikes(x.Block.s, b.out)) by { assert forall|j: int| 0 <= j < x.Block.s.len() implies alike(#[trigger] x.Block.s[j], b.out[j]) by { assert(alike(x.Block.s[j], b.out[e.len() + j - 0])); } }
                assert(alike(d, Some(y)));
                assert(with_comments(out.push(Some(y)), Seq::empty(), 0, t.Line, tag) == out.push(Some(y)));
                assert(r.out == out.push(Some(y)));
            } else {
                let y = Directive { Line: t.Line, Block: sl_nil(), ..x };
                assert(x.Block.s.len() == 0);
                assert(alikes(x.Block.s, y.Block.s));
                assert(alike(d, Some(y)));
                assert(with_comments(out.push(Some(y)), Seq::empty(), 0, t.Line, tag) == out.push(Some(y)));
                assert(r.out == out.push(Some(y)));
            }
        }
    }
}
// the statements from the k-th on
proof fn lemma_list_back(st: PS, b: Seq<Option<Directive>>, k: int, out: Seq<Option<Directive>>, ctx: Sl<S>, bo: BuildOptions, line: int, pr: parser)
    requires 0 <= k <= b.len(), heads(st.toks, t_from(b, k)), if_any(opts(st.pr)), fine_list(b, line, bo),
        tr_st(st, pr, b, k, ctx) == (st.pr, true), tr_st(st, pr, b, b.len() as int, ctx).1,
        ({ let r = past(st.toks, t_from(b, k).len()); r.len() == 0 || (closes(r[0]) && r[0].Error is Nil) })
    ensures ({
        let r = past(st.toks, t_from(b, k).len()); let p = p_block(st, out, ctx);
        &&& p.err is Nil && p.st == told_all(st, if r.len() == 0 { r } else { tail(r) }, tr_st(st, pr, b, b.len() as int, ctx).0)
        &&& p.out.len() == out.len() + b.len() - k && pre(out, p.out) && forall|i: int| k <= i < b.len() ==> alike(#[trigger] b[i], p.out[out.len() + i - k])
    })
    decreases b, b.len() - k + 1
{
    lemma_block(st, out, ctx);
    let fname = st.cfg.File; let tag = file_tag(st);
    if k == b.len() { assert(past(st.toks, 0) =~= st.toks); }
    else {
        assert(fine_dir(b[k], bo));
        lemma_tr(fname, tag, pr, b, k, ctx);
        lemma_tr_mono(fname, tag, pr, b, k + 1, b.len() as int, ctx);
        lemma_heads(st.toks, t_stmt(b[k]), t_from(b, k + 1));
        lemma_stmt_back(st, b[k], out, ctx, bo);
        let r = p_stmt(PS { toks: tail(st.toks), ..st }, st.toks[0], out, ctx);
        lemma_tr_opts(fname, tag, pr, b, k, ctx); lemma_tr_opts(fname, tag, pr, b, k + 1, ctx);
        assert(same_file(r.st, st));
        lemma_list_back(r.st, b, k + 1, r.out, ctx, bo, line, pr);
        let p = p_block(st, out, ctx);
        assert forall|i: int| k <= i < b.len() implies alike(#[trigger] b[i], p.out[out.len() + i - k]) by {
            if i > k { assert(alike(b[i], p.out[r.out.len() + i - (k + 1)])); } else { assert(r.out[out.len() as int] == p.out[out.len() as int]); }
        }
        assert forall|i: int| 0 <= i < out.len() implies out[i] == #[trigger] p.out[i] by { assert(r.out[i] == p.out[i]); }
    }
}
// the options stay
proof fn lemma_tr_stmt_opts(fname: S, tag: S, pr: parser, d: Option<Directive>, ctx: Sl<S>)
    ensures opts(tr_stmt(fname, tag, pr, d, ctx).0) == opts(pr)
    decreases d, 0nat
{
    if d is Some {
        let x = d->0;
        if !is_comment(x) && x.Comment is None && x.File == tag && !in_map(ctx.s) {
            lemma_tr_block(fname, tag, pr, x, ctx);
            let i = inc_names(pr, fname, bare(x), ctx.s);
            lemma_incs_keep(pr, fname, i.names, ctx, i.names.len() as int);
            lemma_tr_opts(fname, tag, tr_inc(fname, pr, x, ctx).0, x.Block.s, x.Block.s.len() as int, kids_ctx(x, ctx));
        }
    }
}
proof fn lemma_tr_opts(fname: S, tag: S, pr: parser, b: Seq<Option<Directive>>, k: int, ctx: Sl<S>)
    requires 0 <= k <= b.len()
    ensures opts(tr_list(fname, tag, pr, b, k, ctx).0) == opts(pr)
    decreases b, k
{
    lemma_tr(fname, tag, pr, b, 0, ctx);
    if k > 0 { lemma_tr_opts(fname, tag, pr, b, k - 1, ctx); lemma_tr(fname, tag, pr, b, k - 1, ctx); lemma_tr_stmt_opts(fname, tag, tr_list(fname, tag, pr, b, k - 1, ctx).0, b[k - 1], ctx); }
}

// A file that parses without error, built and parsed again in its place, gives the same tree up to line numbers, and
// the same includes.
pub open spec fn lexers_of(o: ParseOptions) -> Mp<S, Opq> { reg_lexers(o.LexOptions.extLexers, o.LexOptions.Lexers.s) }
pub open spec fn reread(s: FS, rd: Opq) -> PR { p_block(PS { toks: lexed(lexers_of(opts(s.pr)), chars(rd)), ..f_start(s) }, Seq::empty(), s.pr.includes.s[0].ctx) }
pub proof fn built_file_parses_back(s: FS, c: Config, bo: BuildOptions, rd: Opq)
    requires f_file(s).err is Nil, f_file(s).st.cfg.Errors == f_start(s).cfg.Errors, c.Parsed.s == f_file(s).out,
        no_ext(lexers_of(opts(s.pr))), no_builders(bo), !bo.Header, bo.Indent > 0, fine_list(c.Parsed.s, 0, bo), if_any(opts(s.pr)),
        content(rd) == built_body(c, bo)
    ensures reread(s, rd).err is Nil, alikes(c.Parsed.s, reread(s, rd).out), reread(s, rd).st.cfg == f_start(s).cfg, reread(s, rd).st.pr == f_file(s).st.pr
{
    let st = f_start(s); let ctx = s.pr.includes.s[0].ctx; let b = c.Parsed.s; let e = Seq::<Option<Directive>>::empty();
    let st2 = PS { toks: lexed(lexers_of(opts(s.pr)), chars(rd)), ..st };
    lemma_tr(st.cfg.File, file_tag(st), st.pr, b, 0, ctx);
    lemma_tree(st, e, ctx, b, st.pr);
    built_text_reads_back(rd, c, bo, lexers_of(opts(s.pr)));
    lemma_t_all(b);
    let ks = t_from(b, 0);
    assert forall|i: int| 0 <= i < ks.len() implies tok_is(#[trigger] st2.toks[i], ks[i]) by {}
    assert(past(st2.toks, ks.len()).len() == 0);
    lemma_list_back(st2, b, 0, e, ctx, bo, 0, st.pr);
    let p = reread(s, rd);
    assert forall|i: int| 0 <= i < b.len() implies alike(#[trigger] b[i], p.out[i]) by { assert(alike(b[i], p.out[e.len() + i - 0])); }
}
