// ---- the parser ----
// What parsing a token stream gives, statement by statement. The state holds the tokens not read yet, the config
// being filled (status and errors), the parser's include tables, the payload and the calls of the error callback.

pub struct PS { pub toks: Seq<NgxToken>, pub cfg: Config, pub pr: parser, pub pay: Payload, pub cbs: Seq<(GoErr, Opq)> }
pub struct PR { pub st: PS, pub out: Seq<Option<Directive>>, pub err: GoErr, pub end: bool }

pub open spec fn ps(toks: Seq<NgxToken>, cfg: Config, pr: parser, pay: Payload, cbs: Seq<(GoErr, Opq)>) -> PS { PS { toks: toks, cfg: cfg, pr: pr, pay: pay, cbs: cbs } }

// assumed: errors.As finds the ParseError of an error chain; the callback and the file system are functions
pub uninterp spec fn as_other(e: GoErr) -> Option<ParseError>;
pub open spec fn as_pe(e: GoErr) -> Option<ParseError> { match e { GoErr::PE(b) => Some(*b), GoErr::Nil => None, _ => as_other(e) } }
pub uninterp spec fn cb_result(f: Opq, e: GoErr, n: int) -> Opq;
pub uninterp spec fn opened(f: Opq, path: S) -> Opq;
pub uninterp spec fn open_err(f: Opq, path: S) -> GoErr;
pub uninterp spec fn globbed(f: Opq, pattern: S) -> Sl<S>;
pub uninterp spec fn glob_err(f: Opq, pattern: S) -> GoErr;
pub uninterp spec fn sorted(a: Seq<S>) -> Seq<S>;
pub uninterp spec fn re_match(r: Opq, s: S) -> bool;

pub open spec fn opts(p: parser) -> ParseOptions { p.options->0 }
pub open spec fn tail(s: Seq<NgxToken>) -> Seq<NgxToken> { s.subrange(1, s.len() as int) }
pub open spec fn opens(t: NgxToken) -> bool { t.Value == lit!("{") && !t.IsQuoted }
pub open spec fn closes(t: NgxToken) -> bool { t.Value == lit!("}") && !t.IsQuoted }
pub open spec fn ends_stmt(t: NgxToken) -> bool { t.Error is Nil && !t.IsQuoted && (t.Value == lit!("{") || t.Value == lit!(";") || t.Value == lit!("}")) }
pub open spec fn commented(t: NgxToken) -> bool { has_prefix(t.Value, lit!("#")) && !t.IsQuoted }
pub open spec fn rest1(s: S) -> S { s.subrange(1, s.len() as int) }

pub open spec fn tok_err(fname: S, t: NgxToken, ctx: Seq<S>) -> GoErr {
    match as_pe(t.Error) {
        Some(e) => GoErr::PE(Box::new(ParseError { File: Some(fname), BlockCtx: last_block(ctx), ..e })),
        None => perr(fname, Some(t.Line), last_block(ctx), t.Error),
    }
}
pub open spec fn eof_err(fname: S, line: int, ctx: Seq<S>) -> GoErr { perr(fname, Some(line), last_block(ctx), glob!("crossplane.ErrPrematureLexEnd")) }

// an error is found: it is recorded in the config and in the payload, and the callback is told
pub open spec fn err_line(e: GoErr) -> Option<int> { if e is PE { e->PE_0.Line } else { None } }
pub open spec fn told(f: Opq, e: GoErr, n: int) -> Opq { if f == opq_nil() { opq_nil() } else { cb_result(f, e, n) } }
pub open spec fn fail_cfg(c: Config, e: GoErr) -> Config {
    Config { Status: lit!("failed"), Errors: sl_push(c.Errors, ConfigError { Line: err_line(e), Error: e }), ..c }
}
pub open spec fn fail_pay(p: Payload, file: S, e: GoErr, cb: Opq) -> Payload {
    Payload { Status: lit!("failed"), Errors: sl_push(p.Errors, PayloadError { File: file, Line: err_line(e), Error: e, Callback: cb }), ..p }
}
pub open spec fn tell(f: Opq, cbs: Seq<(GoErr, Opq)>, e: GoErr) -> Seq<(GoErr, Opq)> {
    if f == opq_nil() { cbs } else { cbs.push((e, cb_result(f, e, cbs.len() as int))) }
}
pub open spec fn found(st: PS, e: GoErr) -> PS {
    let f = opts(st.pr).ErrorCallback;
    PS { cfg: fail_cfg(st.cfg, e), pay: fail_pay(st.pay, st.cfg.File, e, told(f, e, st.cbs.len() as int)), cbs: tell(f, st.cbs, e), ..st }
}

// skipping a block up to the brace that closes it, d blocks further out
#[verifier::opaque]
pub open spec fn skip(fname: S, toks: Seq<NgxToken>, d: int) -> (Seq<NgxToken>, GoErr)
    decreases toks.len()
{
    if toks.len() == 0 { (toks, GoErr::Nil) } else {
        let t = toks[0];
        if !(t.Error is Nil) { (tail(toks), tok_err(fname, t, Seq::empty())) }
        else if closes(t) { if d <= 0 { (tail(toks), GoErr::Nil) } else { skip(fname, tail(toks), d - 1) } }
        else if opens(t) { skip(fname, tail(toks), d + 1) }
        else { skip(fname, tail(toks), d) }
    }
}

// the arguments of a statement up to its terminator, the next token being t
pub struct Ar { pub toks: Seq<NgxToken>, pub args: Seq<S>, pub cms: Seq<S>, pub err: GoErr, pub term: NgxToken, pub ok: bool }
#[verifier::opaque]
pub open spec fn args_from(fname: S, ctx: Seq<S>, coms: bool, t: NgxToken, toks: Seq<NgxToken>, args: Seq<S>, cms: Seq<S>, err: GoErr) -> Ar
    decreases toks.len()
{
    if ends_stmt(t) { Ar { toks: toks, args: args, cms: cms, err: err, term: t, ok: true } } else {
        let e = if err is Nil && !(t.Error is Nil) { tok_err(fname, t, ctx) } else { err };
        let a = if commented(t) { args } else { args.push(t.Value) };
        let c = if commented(t) && coms { cms.push(rest1(t.Value)) } else { cms };
        if toks.len() == 0 { Ar { toks: toks, args: a, cms: c, err: e, term: t, ok: false } }
        else { args_from(fname, ctx, coms, toks[0], tail(toks), a, c, e) }
    }
}

// one file found by an include
pub open spec fn add_inc(pr: parser, from: S, name: S, ctx: Sl<S>) -> parser {
    let k = pr.included.m.contains_key(name);
    parser {
        included: if k { pr.included } else { Mp { m: pr.included.m.insert(name, pr.included.m.dom().len() as int), nn: true } },
        includes: if k { pr.includes } else { sl_push(pr.includes, fileCtx { path: name, ctx: ctx }) },
        includeEdges: Mp { m: pr.includeEdges.m.insert(from, sl_push(mp_get(pr.includeEdges, from, sl_nil::<S>()), name)), nn: true },
        includeInDegree: Mp { m: pr.includeInDegree.m.insert(name, mp_get(pr.includeInDegree, name, 0int) + 1), nn: true },
        ..pr
    }
}
pub open spec fn add_incs(pr: parser, from: S, names: Seq<S>, ctx: Sl<S>, k: int) -> parser decreases k {
    if k <= 0 { pr } else { add_inc(add_incs(pr, from, names, ctx, k - 1), from, names[k - 1], ctx) }
}
pub open spec fn inc_list(pr: parser, from: S, names: Seq<S>, ctx: Sl<S>, a: Sl<int>, k: int) -> Sl<int> decreases k {
    if k <= 0 { a } else { sl_push(inc_list(pr, from, names, ctx, a, k - 1), mp_get(add_incs(pr, from, names, ctx, k).included, names[k - 1], 0int)) }
}
pub proof fn lemma_incs(pr: parser, from: S, names: Seq<S>, ctx: Sl<S>, a: Sl<int>, k: int)
    requires k >= 0
    ensures add_incs(pr, from, names, ctx, 0) == pr, inc_list(pr, from, names, ctx, a, 0) == a,
        add_incs(pr, from, names, ctx, k + 1) == add_inc(add_incs(pr, from, names, ctx, k), from, names[k], ctx),
        inc_list(pr, from, names, ctx, a, k + 1) == sl_push(inc_list(pr, from, names, ctx, a, k), mp_get(add_incs(pr, from, names, ctx, k + 1).included, names[k], 0int)),
{ reveal_with_fuel(add_incs, 2); reveal_with_fuel(inc_list, 2); }
pub open spec fn open_fn(o: ParseOptions) -> Opq { if o.Open == opq_nil() { glob!("crossplane.osOpen") } else { o.Open } }
pub open spec fn inc_pattern(pr: parser, d: Directive) -> S {
    if path_abs(d.Args.s[0]) { d.Args.s[0] } else { path_join(Seq::<S>::empty().push(pr.configDir).push(d.Args.s[0])) }
}
// the files an include names; a plain path must be readable
pub struct Inc { pub names: Seq<S>, pub err: GoErr, pub hard: bool }
pub open spec fn inc_names(pr: parser, fname: S, d: Directive, ctx: Seq<S>) -> Inc {
    let o = opts(pr); let p = inc_pattern(pr, d);
    if re_match(glob!("crossplane.hasMagic"), p) {
        if glob_err(o.Glob, p) is Nil { Inc { names: sorted(globbed(o.Glob, p).s), err: GoErr::Nil, hard: false } }
        else { Inc { names: Seq::empty(), err: glob_err(o.Glob, p), hard: true } }
    } else if open_err(open_fn(o), p) is Nil { Inc { names: seq![p], err: GoErr::Nil, hard: false } }
    else { Inc { names: Seq::empty(), err: perr(fname, Some(d.Line), last_block(ctx), GoErr::Nil), hard: o.StopParsingOnError } }
}
pub struct IR { pub st: PS, pub d: Directive, pub err: GoErr }
pub open spec fn p_include(st: PS, d: Directive, ctx: Sl<S>) -> IR {
    let fname = st.cfg.File;
    if opts(st.pr).SingleFile || d.Directive != lit!("include") { IR { st: st, d: d, err: GoErr::Nil } }
    else if d.Args.s.len() == 0 { IR { st: st, d: d, err: perr(fname, Some(d.Line), last_block(ctx.s), GoErr::Nil) } }
    else {
        let i = inc_names(st.pr, fname, d, ctx.s);
        if i.hard { IR { st: st, d: d, err: i.err } } else {
            let s = if i.err is Nil { st } else { found(st, i.err) };
            let n = i.names.len() as int;
            IR { st: PS { pr: add_incs(s.pr, fname, i.names, ctx, n), ..s },
                d: Directive { Includes: inc_list(s.pr, fname, i.names, ctx, d.Includes, n), ..d }, err: GoErr::Nil }
        }
    }
}

pub open spec fn no_block(d: Directive) -> bool { d.Block.s.len() == 0 && d.Includes.s.len() == 0 }
pub open spec fn plain(t: NgxToken, file: S, args: Seq<S>) -> Directive {
    Directive { Directive: t.Value, Line: t.Line, Args: sl_of(args), File: file, Includes: sl_nil(), Block: sl_nil(), Comment: None, IsMapBlockParameter: false }
}
pub open spec fn a_comment(text: S, line: int, file: S) -> Directive {
    Directive { Directive: lit!("#"), Line: line, Args: sl_of(Seq::empty()), File: file, Includes: sl_nil(), Block: sl_nil(), Comment: Some(text), IsMapBlockParameter: false }
}
pub proof fn lemma_comments(out: Seq<Option<Directive>>, cms: Seq<S>, k: int, line: int, file: S)
    requires k >= 0
    ensures with_comments(out, cms, 0, line, file) == out, with_comments(out, cms, k + 1, line, file) == with_comments(out, cms, k, line, file).push(Some(a_comment(cms[k], line, file)))
{ reveal_with_fuel(with_comments, 2); }
pub open spec fn with_comments(out: Seq<Option<Directive>>, cms: Seq<S>, k: int, line: int, file: S) -> Seq<Option<Directive>> decreases k {
    if k <= 0 { out } else { with_comments(out, cms, k - 1, line, file).push(Some(a_comment(cms[k - 1], line, file))) }
}
// a statement that is left out: its block is skipped, and the } that ended it ends the block around it
pub open spec fn drop_stmt(st: PS, out: Seq<Option<Directive>>, term: NgxToken) -> PR {
    if opens(term) { let r = skip(st.cfg.File, st.toks, 0); PR { st: PS { toks: r.0, ..st }, out: out, err: r.1, end: false } }
    else { PR { st: st, out: out, err: GoErr::Nil, end: closes(term) } }
}
pub open spec fn in_map(ctx: Seq<S>) -> bool { ctx.len() > 0 && map_known(ctx.last()) }
pub open spec fn file_tag(st: PS) -> S { if opts(st.pr).CombineConfigs { st.cfg.File } else { sempty() } }

// what happens to a statement before its block is read
pub open spec fn p_head(st: PS, d: Directive, term: NgxToken, out: Seq<Option<Directive>>, ctx: Sl<S>) -> Result<IR, PR> {
    let o = opts(st.pr); let fname = st.cfg.File;
    if in_map(ctx.s) {
        if map_accepts(ctx.s.last(), d.Directive, d.Args.s, term.Value) { Err(PR { st: st, out: out.push(Some(Directive { IsMapBlockParameter: true, ..d })), err: GoErr::Nil, end: false }) }
        else {
            let e = perr(fname, Some(d.Line), ctx.s.last(), GoErr::Nil);
            if o.StopParsingOnError { Err(PR { st: st, out: out, err: e, end: false }) } else { Err(drop_stmt(found(st, e), out, term)) }
        }
    } else if o.IgnoreDirectives.s.contains(d.Directive) { Err(drop_stmt(st, out, term)) }
    else if !accepts(d.Directive, d.Args.s, term.Value, ctx.s, o) {
        let e = perr(fname, Some(d.Line), last_block(ctx.s), GoErr::Nil);
        if o.StopParsingOnError { Err(PR { st: st, out: out, err: e, end: false }) } else { Err(drop_stmt(found(st, e), out, term)) }
    } else {
        let d2 = if d.Directive == lit!("if") { Directive { Args: Sl { s: if_args(d.Args.s), nn: true }, ..d } } else { d };
        let r = p_include(st, d2, ctx);
        if r.err is Nil { Ok(r) } else { Err(PR { st: r.st, out: out, err: r.err, end: false }) }
    }
}
// a statement up to its terminator: either it is done, or it goes into the list, with its block if it has one
pub struct SH { pub st: PS, pub d: Directive, pub term: NgxToken, pub cms: Seq<S>, pub line: int, pub tag: S }
pub open spec fn s_head(st: PS, t: NgxToken, out: Seq<Option<Directive>>, ctx: Sl<S>) -> Result<SH, PR> {
    let o = opts(st.pr); let fname = st.cfg.File;
    if commented(t) {
        Err(PR { st: st, out: if o.ParseComments { out.push(Some(a_comment(rest1(t.Value), t.Line, file_tag(st)))) } else { out }, err: GoErr::Nil, end: false })
    } else if st.toks.len() == 0 { Err(PR { st: st, out: out, err: eof_err(fname, t.Line, ctx.s), end: false }) }
    else {
        let a = args_from(fname, ctx.s, o.ParseComments, st.toks[0], tail(st.toks), Seq::empty(), Seq::empty(), GoErr::Nil);
        let s1 = PS { toks: a.toks, ..st };
        if !a.ok { Err(PR { st: s1, out: out, err: eof_err(fname, t.Line, ctx.s), end: false }) }
        else if !(a.err is Nil) { Err(PR { st: s1, out: out, err: a.err, end: false }) }
        else {
            match p_head(s1, plain(t, file_tag(st), a.args), a.term, out, ctx) {
                Err(r) => Err(r),
                Ok(h) => Ok(SH { st: h.st, d: h.d, term: a.term, cms: a.cms, line: t.Line, tag: file_tag(st) }),
            }
        }
    }
}
pub open spec fn s_add(h: SH, st: PS, d: Directive, out: Seq<Option<Directive>>) -> PR {
    PR { st: st, out: with_comments(out.push(Some(d)), h.cms, h.cms.len() as int, h.line, h.tag), err: GoErr::Nil, end: false }
}
pub open spec fn s_block(h: SH, r: PR, out: Seq<Option<Directive>>) -> PR {
    if r.err is Nil { s_add(h, r.st, Directive { Block: sl_of(r.out), ..h.d }, out) } else { PR { st: r.st, out: out, err: r.err, end: false } }
}
pub open spec fn inner_ctx(h: SH, ctx: Sl<S>) -> Sl<S> { Sl { s: enter_ctx(h.d.Directive, ctx.s), nn: true } }
// the statements of a block or file, appended to out
#[verifier::opaque]
pub open spec fn p_block(st: PS, out: Seq<Option<Directive>>, ctx: Sl<S>) -> PR
    decreases st.toks.len(), 1int
{
    if st.toks.len() == 0 { PR { st: st, out: out, err: GoErr::Nil, end: true } } else {
        let t = st.toks[0]; let s = PS { toks: tail(st.toks), ..st };
        if !(t.Error is Nil) { PR { st: s, out: out, err: tok_err(st.cfg.File, t, ctx.s), end: true } }
        else if closes(t) { PR { st: s, out: out, err: GoErr::Nil, end: true } }
        else {
            let r = p_stmt(s, t, out, ctx);
            if !(r.err is Nil) || r.end || r.st.toks.len() >= st.toks.len() { PR { end: true, ..r } } else { p_block(r.st, r.out, ctx) }
        }
    }
}
#[verifier::opaque]
pub open spec fn p_stmt(st: PS, t: NgxToken, out: Seq<Option<Directive>>, ctx: Sl<S>) -> PR
    decreases st.toks.len(), 2int
{
    match s_head(st, t, out, ctx) {
        Err(r) => r,
        Ok(h) => if !opens(h.term) || h.st.toks.len() >= st.toks.len() { s_add(h, h.st, h.d, out) }
            else { s_block(h, p_block(h.st, Seq::empty(), inner_ctx(h, ctx)), out) },
    }
}
pub open spec fn after_stmt(r: PR, ctx: Sl<S>) -> PR { if !(r.err is Nil) || r.end { PR { end: true, ..r } } else { p_block(r.st, r.out, ctx) } }
pub open spec fn after_head(h: Result<IR, PR>, term: NgxToken, cms: Seq<S>, line: int, tag: S, out: Seq<Option<Directive>>, ctx: Sl<S>) -> PR {
    match h {
        Err(r) => after_stmt(r, ctx),
        Ok(i) => {
            let h = SH { st: i.st, d: i.d, term: term, cms: cms, line: line, tag: tag };
            after_stmt(if opens(term) { s_block(h, p_block(i.st, Seq::empty(), inner_ctx(h, ctx)), out) } else { s_add(h, i.st, i.d, out) }, ctx)
        },
    }
}
// ---- files ----
pub struct FS { pub pr: parser, pub pay: Payload, pub cbs: Seq<(GoErr, Opq)>, pub err: GoErr, pub stop: bool }
pub open spec fn options_used(o: ParseOptions) -> ParseOptions { ParseOptions { Glob: if o.Glob == opq_nil() { fnc!("filepath.Glob") } else { o.Glob }, ..o } }
pub open spec fn f_init(filename: S, o: ParseOptions, cbs: Seq<(GoErr, Opq)>) -> FS {
    FS {
        pr: parser { configDir: path_dir(filename), options: Some(o), handleError: opq_closure(lit!("crossplane.Parse.handleError")),
            includes: sl_of(Seq::<fileCtx>::empty().push(fileCtx { path: filename, ctx: sl_of(Seq::empty()) })),
            included: Mp { m: Map::empty().insert(filename, 0int), nn: true },
            includeEdges: Mp { m: Map::empty(), nn: true },
            includeInDegree: Mp { m: Map::empty().insert(filename, 0int), nn: true } },
        pay: Payload { Status: lit!("ok"), Errors: sl_of(Seq::empty()), Config: sl_of(Seq::empty()) },
        cbs: cbs, err: GoErr::Nil, stop: false,
    }
}
pub open spec fn new_config(file: S) -> Config { Config { File: file, Status: lit!("ok"), Errors: sl_of(Seq::empty()), Parsed: sl_of(Seq::empty()) } }
// the next file of the queue is parsed
pub open spec fn f_start(s: FS) -> PS {
    let o = opts(s.pr); let i = s.pr.includes.s[0];
    PS { toks: lexed(reg_lexers(o.LexOptions.extLexers, o.LexOptions.Lexers.s), chars(opened(open_fn(o), i.path))),
        cfg: new_config(i.path), pr: parser { includes: Sl { s: s.pr.includes.s.subrange(1, s.pr.includes.s.len() as int), ..s.pr.includes }, ..s.pr },
        pay: s.pay, cbs: s.cbs }
}
pub open spec fn f_file(s: FS) -> PR { p_block(f_start(s), Seq::empty(), s.pr.includes.s[0].ctx) }
pub open spec fn f_step(s: FS) -> FS {
    let o = opts(s.pr); let i = s.pr.includes.s[0];
    if !(open_err(open_fn(o), i.path) is Nil) { FS { err: open_err(open_fn(o), i.path), stop: true, ..s } }
    else {
        let r = f_file(s);
        if r.err is Nil {
            FS { pr: r.st.pr, cbs: r.st.cbs, pay: Payload { Config: sl_push(r.st.pay.Config, Config { Parsed: Sl { s: r.out, nn: r.out.len() > 0 }, ..r.st.cfg }), ..r.st.pay }, ..s }
        } else if o.StopParsingOnError { FS { pr: r.st.pr, cbs: r.st.cbs, pay: r.st.pay, err: r.err, stop: true } }
        else {
            let st = found(r.st, r.err);
            FS { pr: st.pr, cbs: st.cbs, pay: Payload { Config: sl_push(st.pay.Config, st.cfg), ..st.pay }, ..s }
        }
    }
}
// after n files
#[verifier::opaque]
pub open spec fn f_run(s: FS, n: int) -> FS decreases n {
    if n <= 0 { s } else {
        let p = f_run(s, n - 1);
        if p.stop || p.pr.includes.s.len() == 0 { p } else { f_step(p) }
    }
}
pub proof fn lemma_f_run(s: FS, n: int)
    requires n >= 0
    ensures f_run(s, 0) == s, f_run(s, n + 1) == (if f_run(s, n).stop || f_run(s, n).pr.includes.s.len() == 0 { f_run(s, n) } else { f_step(f_run(s, n)) })
{ reveal_with_fuel(f_run, 2); }
pub open spec fn parsed_as(s: FS, o: ParseOptions, r: Option<Payload>, err: GoErr) -> bool {
    if s.stop { r is None && err == s.err }
    else if s.pr.includes.s.len() > 0 { false }
    else if cyclic(s.pr) { r is None && err is Msg }
    else if !o.CombineConfigs { r == Some(s.pay) && err is Nil }
    else { true }
}

pub proof fn lemma_skip(fname: S, toks: Seq<NgxToken>, d: int)
    ensures toks.len() == 0 ==> skip(fname, toks, d) == (toks, GoErr::Nil),
        toks.len() > 0 && !(toks[0].Error is Nil) ==> skip(fname, toks, d) == (tail(toks), tok_err(fname, toks[0], Seq::empty())),
        toks.len() > 0 && toks[0].Error is Nil ==> skip(fname, toks, d) == (
            if closes(toks[0]) { if d <= 0 { (tail(toks), GoErr::Nil) } else { skip(fname, tail(toks), d - 1) } }
            else if opens(toks[0]) { skip(fname, tail(toks), d + 1) } else { skip(fname, tail(toks), d) })
{ reveal(skip); }
// a block inside a skipped block
pub proof fn lemma_skip_nest(fname: S, toks: Seq<NgxToken>, a: int, b: int)
    requires a >= 0, b >= 0
    ensures skip(fname, toks, a + b + 1) == (if skip(fname, toks, a).1 is Nil { skip(fname, skip(fname, toks, a).0, b) } else { skip(fname, toks, a) }),
        skip(fname, toks, a).0.len() <= toks.len()
    decreases toks.len()
{
    lemma_skip(fname, toks, a + b + 1); lemma_skip(fname, toks, a); lemma_skip(fname, toks, b);
    if toks.len() > 0 {
        let r = tail(toks);
        lemma_skip_nest(fname, r, a, b);
        lemma_skip_nest(fname, r, a + 1, b);
        if a > 0 { lemma_skip_nest(fname, r, a - 1, b); }
    } else { reveal(skip); }
}
pub proof fn lemma_args(fname: S, ctx: Seq<S>, coms: bool, t: NgxToken, toks: Seq<NgxToken>, args: Seq<S>, cms: Seq<S>, err: GoErr)
    ensures ({
        let e = if err is Nil && !(t.Error is Nil) { tok_err(fname, t, ctx) } else { err };
        let a = if commented(t) { args } else { args.push(t.Value) };
        let c = if commented(t) && coms { cms.push(rest1(t.Value)) } else { cms };
        args_from(fname, ctx, coms, t, toks, args, cms, err) == (
            if ends_stmt(t) { Ar { toks: toks, args: args, cms: cms, err: err, term: t, ok: true } }
            else if toks.len() == 0 { Ar { toks: toks, args: a, cms: c, err: e, term: t, ok: false } }
            else { args_from(fname, ctx, coms, toks[0], tail(toks), a, c, e) })
    })
{ reveal(args_from); }
pub proof fn lemma_args_len(fname: S, ctx: Seq<S>, coms: bool, t: NgxToken, toks: Seq<NgxToken>, args: Seq<S>, cms: Seq<S>, err: GoErr)
    ensures args_from(fname, ctx, coms, t, toks, args, cms, err).toks.len() <= toks.len()
    decreases toks.len()
{
    lemma_args(fname, ctx, coms, t, toks, args, cms, err);
    if !ends_stmt(t) && toks.len() > 0 {
        let e = if err is Nil && !(t.Error is Nil) { tok_err(fname, t, ctx) } else { err };
        let a = if commented(t) { args } else { args.push(t.Value) };
        let c = if commented(t) && coms { cms.push(rest1(t.Value)) } else { cms };
        lemma_args_len(fname, ctx, coms, toks[0], tail(toks), a, c, e);
    }
}
// parsing never puts tokens back
pub proof fn lemma_head_len(st: PS, t: NgxToken, out: Seq<Option<Directive>>, ctx: Sl<S>)
    ensures match s_head(st, t, out, ctx) { Err(r) => r.st.toks.len() <= st.toks.len(), Ok(h) => h.st.toks.len() < st.toks.len() }
{
    let o = opts(st.pr); let fname = st.cfg.File;
    if !commented(t) && st.toks.len() > 0 {
        lemma_args_len(fname, ctx.s, o.ParseComments, st.toks[0], tail(st.toks), Seq::empty(), Seq::empty(), GoErr::Nil);
        let a = args_from(fname, ctx.s, o.ParseComments, st.toks[0], tail(st.toks), Seq::empty(), Seq::empty(), GoErr::Nil);
        lemma_skip_nest(fname, a.toks, 0, 0);
    }
}
pub proof fn lemma_block_len(st: PS, out: Seq<Option<Directive>>, ctx: Sl<S>)
    ensures p_block(st, out, ctx).st.toks.len() <= st.toks.len()
    decreases st.toks.len(), 1int
{
    reveal(p_block); reveal(p_stmt);
    if st.toks.len() > 0 {
        let t = st.toks[0]; let s = PS { toks: tail(st.toks), ..st };
        if t.Error is Nil && !closes(t) {
            lemma_stmt_len(s, t, out, ctx);
            let r = p_stmt(s, t, out, ctx);
            if r.err is Nil && !r.end { lemma_block_len(r.st, r.out, ctx); }
        }
    }
}
pub proof fn lemma_stmt_len(st: PS, t: NgxToken, out: Seq<Option<Directive>>, ctx: Sl<S>)
    ensures p_stmt(st, t, out, ctx).st.toks.len() <= st.toks.len()
    decreases st.toks.len(), 2int
{
    lemma_head_len(st, t, out, ctx);
    reveal(p_block); reveal(p_stmt);
    match s_head(st, t, out, ctx) {
        Ok(h) => { lemma_block_len(h.st, Seq::empty(), inner_ctx(h, ctx)); }
        Err(r) => { }
    }
}
// one step
pub proof fn lemma_block(st: PS, out: Seq<Option<Directive>>, ctx: Sl<S>)
    ensures ({
        let t = st.toks[0]; let s = PS { toks: tail(st.toks), ..st }; let r = p_stmt(s, t, out, ctx);
        p_block(st, out, ctx) == (
            if st.toks.len() == 0 { PR { st: st, out: out, err: GoErr::Nil, end: true } }
            else if !(t.Error is Nil) { PR { st: s, out: out, err: tok_err(st.cfg.File, t, ctx.s), end: true } }
            else if closes(t) { PR { st: s, out: out, err: GoErr::Nil, end: true } }
            else if !(r.err is Nil) || r.end { PR { end: true, ..r } } else { p_block(r.st, r.out, ctx) })
    })
{
    reveal(p_block); reveal(p_stmt);
    if st.toks.len() > 0 { lemma_stmt_len(PS { toks: tail(st.toks), ..st }, st.toks[0], out, ctx); }
}
pub proof fn lemma_stmt(st: PS, t: NgxToken, out: Seq<Option<Directive>>, ctx: Sl<S>)
    ensures p_stmt(st, t, out, ctx) == (match s_head(st, t, out, ctx) {
        Err(r) => r,
        Ok(h) => if opens(h.term) { s_block(h, p_block(h.st, Seq::empty(), inner_ctx(h, ctx)), out) } else { s_add(h, h.st, h.d, out) },
    })
{
    lemma_head_len(st, t, out, ctx);
    reveal(p_block); reveal(p_stmt);
}
// what parsing never changes
pub open spec fn keeps(a: PS, b: PS) -> bool {
    b.pay.Config == a.pay.Config && b.cfg.File == a.cfg.File && b.cfg.Parsed == a.cfg.Parsed
    && b.pr.options == a.pr.options && b.pr.configDir == a.pr.configDir && b.pr.handleError == a.pr.handleError
}
pub proof fn lemma_incs_keep(pr: parser, from: S, names: Seq<S>, ctx: Sl<S>, k: int)
    ensures add_incs(pr, from, names, ctx, k).options == pr.options, add_incs(pr, from, names, ctx, k).configDir == pr.configDir,
        add_incs(pr, from, names, ctx, k).handleError == pr.handleError
    decreases k
{ if k > 0 { lemma_incs_keep(pr, from, names, ctx, k - 1); } }
pub proof fn lemma_head_keeps(st: PS, t: NgxToken, out: Seq<Option<Directive>>, ctx: Sl<S>)
    ensures match s_head(st, t, out, ctx) { Err(r) => keeps(st, r.st), Ok(h) => keeps(st, h.st) }
{
    let o = opts(st.pr);
    if !commented(t) && st.toks.len() > 0 {
        let a = args_from(st.cfg.File, ctx.s, o.ParseComments, st.toks[0], tail(st.toks), Seq::empty(), Seq::empty(), GoErr::Nil);
        let d0 = plain(t, file_tag(st), a.args);
        let d = if d0.Directive == lit!("if") { Directive { Args: Sl { s: if_args(d0.Args.s), nn: true }, ..d0 } } else { d0 };
        let i = inc_names(st.pr, st.cfg.File, d, ctx.s);
        lemma_incs_keep(st.pr, st.cfg.File, i.names, ctx, i.names.len() as int);
    }
}
pub proof fn lemma_keeps(st: PS, out: Seq<Option<Directive>>, ctx: Sl<S>)
    ensures keeps(st, p_block(st, out, ctx).st)
    decreases st.toks.len()
{
    lemma_block(st, out, ctx);
    if st.toks.len() > 0 && st.toks[0].Error is Nil && !closes(st.toks[0]) {
        let t = st.toks[0]; let s = PS { toks: tail(st.toks), ..st };
        lemma_stmt(s, t, out, ctx); lemma_head_keeps(s, t, out, ctx); lemma_head_len(s, t, out, ctx); lemma_stmt_len(s, t, out, ctx);
        match s_head(s, t, out, ctx) {
            Ok(h) => { if opens(h.term) { lemma_keeps(h.st, Seq::empty(), inner_ctx(h, ctx)); } }
            Err(r) => { }
        }
        let r = p_stmt(s, t, out, ctx);
        if r.err is Nil && !r.end { lemma_keeps(r.st, r.out, ctx); }
    }
}
