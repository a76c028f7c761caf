// ---- errors ----
// the file c, the payload p and the callback calls b after the errors es were found in the file c0 was
pub open spec fn payload_errors(file: S, es: Seq<ConfigError>, f: Opq, n: int) -> Seq<PayloadError> decreases es.len() {
    if es.len() == 0 { Seq::empty() } else {
        let e = es.last();
        payload_errors(file, es.drop_last(), f, n).push(PayloadError { File: file, Line: e.Line, Error: e.Error, Callback: told(f, e.Error, n + es.len() - 1) })
    }
}
pub open spec fn callback_calls(es: Seq<ConfigError>, f: Opq, n: int) -> Seq<(GoErr, Opq)> decreases es.len() {
    if es.len() == 0 || f == opq_nil() { Seq::empty() } else { callback_calls(es.drop_last(), f, n).push((es.last().Error, cb_result(f, es.last().Error, n + es.len() - 1))) }
}
pub open spec fn config_status(c: Config) -> bool { c.Status == (if c.Errors.s.len() > 0 { lit!("failed") } else { lit!("ok") }) && forall|i: int| 0 <= i < c.Errors.s.len() ==> (#[trigger] c.Errors.s[i]).Line == err_line(c.Errors.s[i].Error) }
// a file in which exactly the errors of the config were found, starting with p0 and b0
pub open spec fn kept(c: Config, p0: Payload, b0: Seq<(GoErr, Opq)>, p: Payload, b: Seq<(GoErr, Opq)>, f: Opq) -> bool {
    &&& config_status(c)
    &&& p.Errors.s == p0.Errors.s + payload_errors(c.File, c.Errors.s, f, b0.len() as int)
    &&& b == b0 + callback_calls(c.Errors.s, f, b0.len() as int)
    &&& p.Status == (if c.Errors.s.len() > 0 { lit!("failed") } else { p0.Status })
    &&& p.Config == p0.Config
}
pub open spec fn kept_in(st: PS, p0: Payload, b0: Seq<(GoErr, Opq)>) -> bool { kept(st.cfg, p0, b0, st.pay, st.cbs, opts(st.pr).ErrorCallback) }
proof fn lemma_calls_len(es: Seq<ConfigError>, f: Opq, n: int)
    ensures callback_calls(es, f, n).len() == (if f == opq_nil() { 0 } else { es.len() as int })
    decreases es.len()
{ if es.len() > 0 && f != opq_nil() { lemma_calls_len(es.drop_last(), f, n); } }
proof fn lemma_found(st: PS, e: GoErr, p0: Payload, b0: Seq<(GoErr, Opq)>)
    requires kept_in(st, p0, b0)
    ensures kept_in(found(st, e), p0, b0)
{
    let f = opts(st.pr).ErrorCallback; let q = found(st, e); let n = b0.len() as int;
    let a = st.cfg.Errors.s; let b = q.cfg.Errors.s;
    lemma_calls_len(a, f, n);
    assert(b == a.push(ConfigError { Line: err_line(e), Error: e }));
    assert(b.drop_last() =~= a);
    assert(b.last() == ConfigError { Line: err_line(e), Error: e });
    assert(told(f, e, st.cbs.len() as int) == told(f, e, n + a.len()));
    assert(p0.Errors.s + payload_errors(q.cfg.File, b, f, n) =~= q.pay.Errors.s);
    assert(b0 + callback_calls(b, f, n) =~= q.cbs);
}
proof fn lemma_kept_accepted(st: PS, d: Directive, term: NgxToken, out: Seq<Option<Directive>>, ctx: Sl<S>, p0: Payload, b0: Seq<(GoErr, Opq)>)
    requires kept_in(st, p0, b0)
    ensures match p_head(st, d, term, out, ctx) { Err(r) => kept_in(r.st, p0, b0), Ok(i) => kept_in(i.st, p0, b0) }
{
    let o = opts(st.pr);
    if in_map(ctx.s) { lemma_found(st, perr(st.cfg.File, Some(d.Line), ctx.s.last(), GoErr::Nil), p0, b0); }
    else if o.IgnoreDirectives.s.contains(d.Directive) { }
    else if accepts(d.Directive, d.Args.s, term.Value, ctx.s, o) {
        let d2 = if d.Directive == lit!("if") { Directive { Args: Sl { s: if_args(d.Args.s), nn: true }, ..d } } else { d };
        let i = inc_names(st.pr, st.cfg.File, d2, ctx.s);
        if !(i.err is Nil) { lemma_found(st, i.err, p0, b0); }
        let s = if i.err is Nil { st } else { found(st, i.err) };
        lemma_incs_keep(s.pr, st.cfg.File, i.names, ctx, i.names.len() as int);
    } else { lemma_found(st, perr(st.cfg.File, Some(d.Line), last_block(ctx.s), GoErr::Nil), p0, b0); }
}
proof fn lemma_kept_head(st: PS, t: NgxToken, out: Seq<Option<Directive>>, ctx: Sl<S>, p0: Payload, b0: Seq<(GoErr, Opq)>)
    requires kept_in(st, p0, b0)
    ensures match s_head(st, t, out, ctx) { Err(r) => kept_in(r.st, p0, b0), Ok(h) => kept_in(h.st, p0, b0) }
{
    let o = opts(st.pr); let fname = st.cfg.File;
    if !commented(t) && st.toks.len() > 0 {
        let a = args_from(fname, ctx.s, o.ParseComments, st.toks[0], tail(st.toks), Seq::empty(), Seq::empty(), GoErr::Nil);
        lemma_kept_accepted(PS { toks: a.toks, ..st }, plain(t, file_tag(st), a.args), a.term, out, ctx, p0, b0);
    }
}
// whatever is parsed, status, errors and callback calls of file and payload stay in step
pub proof fn errors_stay_in_step(st: PS, out: Seq<Option<Directive>>, ctx: Sl<S>, p0: Payload, b0: Seq<(GoErr, Opq)>)
    requires kept_in(st, p0, b0)
    ensures kept_in(p_block(st, out, ctx).st, p0, b0)
    decreases st.toks.len()
{
    lemma_block(st, out, ctx);
    if st.toks.len() > 0 && st.toks[0].Error is Nil && !closes(st.toks[0]) {
        let t = st.toks[0]; let s = PS { toks: tail(st.toks), ..st };
        lemma_stmt(s, t, out, ctx); lemma_stmt_len(s, t, out, ctx); lemma_kept_head(s, t, out, ctx, p0, b0); lemma_head_len(s, t, out, ctx);
        let r = p_stmt(s, t, out, ctx);
        match s_head(s, t, out, ctx) {
            Ok(h) => { if opens(h.term) { errors_stay_in_step(h.st, Seq::empty(), inner_ctx(h, ctx), p0, b0); } }
            Err(x) => { }
        }
        if r.err is Nil && !r.end { errors_stay_in_step(r.st, r.out, ctx, p0, b0); }
    }
}
// with StopParsingOnError nothing is recorded: the first error is returned
proof fn lemma_stop_head(st: PS, t: NgxToken, out: Seq<Option<Directive>>, ctx: Sl<S>)
    requires opts(st.pr).StopParsingOnError
    ensures match s_head(st, t, out, ctx) { Err(r) => r.st.cfg == st.cfg && r.st.pay == st.pay && r.st.cbs == st.cbs, Ok(h) => h.st.cfg == st.cfg && h.st.pay == st.pay && h.st.cbs == st.cbs }
{ }
pub proof fn stopping_records_nothing(st: PS, out: Seq<Option<Directive>>, ctx: Sl<S>)
    requires opts(st.pr).StopParsingOnError
    ensures ({ let r = p_block(st, out, ctx).st; r.cfg == st.cfg && r.pay == st.pay && r.cbs == st.cbs })
    decreases st.toks.len()
{
    lemma_block(st, out, ctx);
    if st.toks.len() > 0 && st.toks[0].Error is Nil && !closes(st.toks[0]) {
        let t = st.toks[0]; let s = PS { toks: tail(st.toks), ..st };
        lemma_stmt(s, t, out, ctx); lemma_stmt_len(s, t, out, ctx); lemma_stop_head(s, t, out, ctx); lemma_head_len(s, t, out, ctx); lemma_head_keeps(s, t, out, ctx);
        let r = p_stmt(s, t, out, ctx);
        match s_head(s, t, out, ctx) {
            Ok(h) => { if opens(h.term) { stopping_records_nothing(h.st, Seq::empty(), inner_ctx(h, ctx)); lemma_keeps(h.st, Seq::empty(), inner_ctx(h, ctx)); } }
            Err(x) => { }
        }
        if r.err is Nil && !r.end { stopping_records_nothing(r.st, r.out, ctx); }
    }
}
// ---- C08 for a whole parse ----
pub open spec fn all_errors(files: Seq<Config>, f: Opq, n: int) -> Seq<PayloadError> decreases files.len() {
    if files.len() == 0 { Seq::empty() } else {
        let a = all_errors(files.drop_last(), f, n);
        a + payload_errors(files.last().File, files.last().Errors.s, f, if f == opq_nil() { n } else { n + a.len() })
    }
}
pub open spec fn all_calls(files: Seq<Config>, f: Opq, n: int) -> Seq<(GoErr, Opq)> decreases files.len() {
    if files.len() == 0 { Seq::empty() } else {
        let a = all_calls(files.drop_last(), f, n);
        a + callback_calls(files.last().Errors.s, f, n + a.len())
    }
}
pub open spec fn in_step(s: FS, cbs: Seq<(GoErr, Opq)>) -> bool {
    let f = opts(s.pr).ErrorCallback; let n = cbs.len() as int;
    &&& forall|i: int| 0 <= i < s.pay.Config.s.len() ==> config_status(#[trigger] s.pay.Config.s[i])
    &&& s.pay.Errors.s == all_errors(s.pay.Config.s, f, n)
    &&& s.cbs == cbs + all_calls(s.pay.Config.s, f, n)
    &&& s.pay.Status == (if s.pay.Errors.s.len() > 0 { lit!("failed") } else { lit!("ok") })
    &&& opts(s.pr).StopParsingOnError ==> s.pay.Errors.s.len() == 0
}
proof fn lemma_payload_len(file: S, es: Seq<ConfigError>, f: Opq, n: int)
    ensures payload_errors(file, es, f, n).len() == es.len()
    decreases es.len()
{ if es.len() > 0 { lemma_payload_len(file, es.drop_last(), f, n); } }
proof fn lemma_all_len(files: Seq<Config>, f: Opq, n: int)
    ensures all_calls(files, f, n).len() == (if f == opq_nil() { 0 } else { all_errors(files, f, n).len() as int })
    decreases files.len()
{
    if files.len() > 0 {
        lemma_all_len(files.drop_last(), f, n);
        let c = files.last();
        lemma_payload_len(c.File, c.Errors.s, f, if f == opq_nil() { n } else { n + all_errors(files.drop_last(), f, n).len() });
        lemma_calls_len(c.Errors.s, f, n + all_calls(files.drop_last(), f, n).len());
    }
}
proof fn lemma_in_step(s: FS, cbs: Seq<(GoErr, Opq)>)
    requires in_step(s, cbs), !s.stop, s.pr.includes.s.len() > 0
    ensures f_step(s).stop || in_step(f_step(s), cbs)
{
    let o = opts(s.pr); let i = s.pr.includes.s[0]; let q = f_step(s); let f = o.ErrorCallback; let n = cbs.len() as int;
    if open_err(open_fn(o), i.path) is Nil {
        let st = f_start(s); let r = f_file(s);
        assert(st.pay.Errors.s + payload_errors(st.cfg.File, st.cfg.Errors.s, f, st.cbs.len() as int) =~= st.pay.Errors.s);
        assert(st.cbs + callback_calls(st.cfg.Errors.s, f, st.cbs.len() as int) =~= st.cbs);
        assert(kept_in(st, s.pay, s.cbs));
        errors_stay_in_step(st, Seq::empty(), i.ctx, s.pay, s.cbs);
        lemma_keeps(st, Seq::empty(), i.ctx);
        if o.StopParsingOnError { stopping_records_nothing(st, Seq::empty(), i.ctx); }
        if !q.stop {
            let e = if r.err is Nil { r.st } else { found(r.st, r.err) };
            if !(r.err is Nil) { lemma_found(r.st, r.err, s.pay, s.cbs); }
            assert(kept_in(e, s.pay, s.cbs));
            let c = q.pay.Config.s.last(); let k = s.pay.Config.s.len() as int;
            assert(q.pay.Config.s.drop_last() =~= s.pay.Config.s);
            assert(c.File == e.cfg.File && c.Errors == e.cfg.Errors && c.Status == e.cfg.Status);
            assert(config_status(c));
            lemma_all_len(s.pay.Config.s, f, n);
            lemma_payload_len(c.File, c.Errors.s, f, s.cbs.len() as int);
            assert(f != opq_nil() ==> s.cbs.len() == n + all_errors(s.pay.Config.s, f, n).len());
            if f == opq_nil() { lemma_nil_callback(c.File, c.Errors.s, s.cbs.len() as int, n); }
            assert(q.pay.Errors.s == all_errors(q.pay.Config.s, f, n));
            assert(cbs + all_calls(s.pay.Config.s, f, n) + callback_calls(c.Errors.s, f, s.cbs.len() as int) =~= cbs + (all_calls(s.pay.Config.s, f, n) + callback_calls(c.Errors.s, f, s.cbs.len() as int)));
            assert(s.cbs.len() == n + all_calls(s.pay.Config.s, f, n).len());
            assert(q.cbs == cbs + all_calls(q.pay.Config.s, f, n));
            assert(q.pay.Status == (if q.pay.Errors.s.len() > 0 { lit!("failed") } else { lit!("ok") }));
            assert forall|j: int| 0 <= j < q.pay.Config.s.len() implies config_status(#[trigger] q.pay.Config.s[j]) by {
                if j < k { assert(q.pay.Config.s[j] == s.pay.Config.s[j]); } else { assert(q.pay.Config.s[j] == c); }
            }
        }
    }
}
proof fn lemma_nil_callback(file: S, es: Seq<ConfigError>, a: int, b: int)
    ensures payload_errors(file, es, opq_nil(), a) == payload_errors(file, es, opq_nil(), b)
    decreases es.len()
{ if es.len() > 0 { lemma_nil_callback(file, es.drop_last(), a, b); } }
pub proof fn status_and_errors_agree(filename: S, o: ParseOptions, cbs: Seq<(GoErr, Opq)>, n: int)
    requires n >= 0
    ensures ({ let s = f_run(f_init(filename, o, cbs), n); opts(s.pr) == o && (s.stop || in_step(s, cbs)) })
    decreases n
{
    let s0 = f_init(filename, o, cbs);
    lemma_f_run(s0, 0);
    if n == 0 { assert(s0.cbs =~= cbs + all_calls(s0.pay.Config.s, o.ErrorCallback, cbs.len() as int)); }
    else {
        status_and_errors_agree(filename, o, cbs, n - 1); lemma_f_run(s0, n - 1);
        let s = f_run(s0, n - 1);
        if !s.stop && s.pr.includes.s.len() > 0 { lemma_in_step(s, cbs); lemma_keeps(f_start(s), Seq::empty(), s.pr.includes.s[0].ctx); }
    }
}
// with StopParsingOnError a payload is only returned when no error was found
pub proof fn stopping_returns_the_first_error(filename: S, o: ParseOptions, cbs: Seq<(GoErr, Opq)>, n: int)
    requires n >= 0, o.StopParsingOnError, !f_run(f_init(filename, o, cbs), n).stop
    ensures f_run(f_init(filename, o, cbs), n).pay.Errors.s.len() == 0
{ status_and_errors_agree(filename, o, cbs, n); }
