world opts: ParseOptions
world pay: Payload
world cbs: Seq<(GoErr, Opq)>
type io.ReadCloser = Opq
type *regexp.Regexp = Opq
dispatch field crossplane.parser.handleError = crossplane.Parse.handleError

model errors.As(e, *target) = as_pe(e) is Some
  set target = as_pe(e)
  note errors.As finds the first ParseError of the chain
model field crossplane.ParseOptions.ErrorCallback(f, e) = cb_result(f, e, w.cbs.len() as int)
  set w.cbs = w.cbs.push((e, cb_result(f, e, w.cbs.len() as int)))
  note the callback does not touch the parser's data
model field crossplane.ParseOptions.Glob(f, p) = globbed(f, p), glob_err(f, p)
  note files and directories do not change while they are parsed
model errors.New(s) = GoErr::Msg(s)
model functype func(string) ([]string, error)(f, p) = globbed(f, p), glob_err(f, p)
model functype func(error) (interface{})(f, e) = cb_result(f, e, w.cbs.len() as int)
  set w.cbs = w.cbs.push((e, cb_result(f, e, w.cbs.len() as int)))
model functype func(string) (io.ReadCloser, error)(f, p) = opened(f, p), open_err(f, p)
  note files and directories do not change while they are parsed
model sort.Strings(*a)
  set a = Sl { s: sorted(a.s), nn: a.nn }
model filepath.IsAbs(p) = path_abs(p)
model filepath.Join(a) = path_join(a.s)
model filepath.Dir(p) = path_dir(p)
model regexp.(*Regexp).MatchString(r, s) = re_match(r, s)

func crossplane.Parse.handleError(config, err)
  closureof crossplane.Parse
  capture options = w.opts
  box payload = w.pay
  modifies config.Status, config.Errors, w.pay, w.cbs
  ensures @wf [C14] wf_configs(w.pay) ==> wf_configs(w_n.pay)
  ensures @config config_n == fail_cfg(config, err)
  ensures @payload w_n.pay == fail_pay(w.pay, config.File, err, told(w.opts.ErrorCallback, err, w.cbs.len() as int))
  ensures @callback w_n.cbs == tell(w.opts.ErrorCallback, w.cbs, err)

func crossplane.(*parser).openFile(p, path) (f, err)
  requires [*] p.options is Some
  ensures @file f == opened(open_fn(opts(p)), path)
  ensures @error err == open_err(open_fn(opts(p)), path)

func crossplane.tokenError(parsing, t, ctx) (r)
  requires !(t.Error is Nil)
  ensures @some [*] r is Some
  ensures @spec r is Some && GoErr::PE(Box::new(r->0)) == tok_err(parsing.File, t, ctx.s)

func crossplane.(*parser).parse(p, parsing, tokens, ctx, consume) (parsed, err)
  modifies p.includes, p.included, p.includeEdges, p.includeInDegree, parsing.Status, parsing.Errors, tokens, w.pay, w.cbs
  requires [*] tokens.closed && p.options == Some(w.opts) && p.included.nn && p.includeEdges.nn && p.includeInDegree.nn
  requires consume ==> ctx.s.len() == 0
  requires [C14] wf_configs(w.pay)
  ensures @wf [C14] wfs(parsed.s) && wf_configs(w_n.pay)
  decreases [*] tokens.buf.len()
  split 12
  ensures @skipped consume ==> tokens_n.buf == skip(parsing.File, tokens.buf, 0).0 && err == skip(parsing.File, tokens.buf, 0).1 && p_n == p && parsing_n == parsing && w_n == w
  ensures @state !consume ==> ps(tokens_n.buf, parsing_n, p_n, w_n.pay, w_n.cbs) == p_block(ps(tokens.buf, parsing, p, w.pay, w.cbs), Seq::empty(), ctx).st
  ensures @error !consume ==> err == p_block(ps(tokens.buf, parsing, p, w.pay, w.cbs), Seq::empty(), ctx).err
  ensures @tree !consume && err is Nil ==> parsed.s == p_block(ps(tokens.buf, parsing, p, w.pay, w.cbs), Seq::empty(), ctx).out && parsed.nn == (parsed.s.len() > 0)
  ensures @fewer [*] tokens_n.buf.len() <= tokens.buf.len() && tokens_n.closed && p_n.included.nn && p_n.includeEdges.nn && p_n.includeInDegree.nn
  entry if ctx.s.len() > 0 { lemma_maps(ctx.s.last(), sempty()); }
  loop 0 ~ ^range tokens\b
    isnap i0 = ps(tokens.buf, parsing, p, w.pay, w.cbs)
    isnap out0 = parsed.s
    invariant @wf [C14] wfs(parsed.s) && wf_configs(w.pay)
    invariant @closed [*] tokens.closed && tokens.buf.len() <= tokens_0.buf.len() && p.options == Some(w.opts) && w.opts == w_0.opts && p.included.nn && p.includeEdges.nn && p.includeInDegree.nn
    invariant @list parsed.nn == (parsed.s.len() > 0)
    invariant @skip consume ==> skip(parsing.File, tokens.buf, 0) == skip(parsing.File, tokens_0.buf, 0) && p == p_0 && parsing == parsing_0 && w == w_0
    invariant @block !consume ==> p_block(ps(tokens.buf, parsing, p, w.pay, w.cbs), parsed.s, ctx) == p_block(ps(tokens_0.buf, parsing_0, p_0, w_0.pay, w_0.cbs), Seq::empty(), ctx)
    invariant @file parsing.File == parsing_0.File
    decreases [*] tokens.buf.len()
    head lemma_block(ps(tokens.buf, parsing, p, w.pay, w.cbs), parsed.s, ctx); lemma_skip(parsing.File, tokens.buf, 0);
      if tokens.buf.len() > 0 { lemma_skip_nest(parsing.File, tail(tokens.buf), 0, 0); lemma_stmt(ps(tail(tokens.buf), parsing, p, w.pay, w.cbs), tokens.buf[0], parsed.s, ctx); }
    post lemma_block(ps(tokens.buf, parsing, p, w.pay, w.cbs), parsed.s, ctx); lemma_skip(parsing.File, tokens.buf, 0);
  loop 1
    snap ar = args_from(parsing.File, ctx.s, p.options->0.ParseComments, t, tokens.buf, stmt->0.Args.s, commentsInArgs.s, argErr)
    snap stmt1 = stmt->0
    snap left = tokens.buf.len()
    invariant @args args_from(parsing.File, ctx.s, p.options->0.ParseComments, t, tokens.buf, stmt->0.Args.s, commentsInArgs.s, argErr) == ar
    invariant @left [*] tokens.buf.len() <= left
    invariant @open [*] tokens.closed
    invariant @some [*] stmt is Some
    invariant @noblock [C14] stmt->0.Block.s.len() == 0
    invariant @stmt stmt->0 == (Directive { Args: sl_of(stmt->0.Args.s), ..stmt1 })
    decreases [*] tokens.buf.len()
    head lemma_args(parsing.File, ctx.s, p.options->0.ParseComments, t, tokens.buf, stmt->0.Args.s, commentsInArgs.s, argErr);
    post lemma_args(parsing.File, ctx.s, p.options->0.ParseComments, t, tokens.buf, stmt->0.Args.s, commentsInArgs.s, argErr);
      assert(ends_stmt(t));
      assert(ar == (Ar { toks: tokens.buf, args: stmt->0.Args.s, cms: commentsInArgs.s, err: argErr, term: t, ok: true }));
      assert(stmt->0 == plain(i0.toks[0], file_tag(i0), ar.args));
      assert(argErr is Nil ==> s_head(ps(tail(i0.toks), i0.cfg, i0.pr, i0.pay, i0.cbs), i0.toks[0], out0, ctx) == (match p_head(ps(tokens.buf, parsing, p, w.pay, w.cbs), stmt->0, t, parsed.s, ctx) { Err(r) => Err(r), Ok(h) => Ok(SH { st: h.st, d: h.d, term: t, cms: commentsInArgs.s, line: stmt->0.Line, tag: fileName }) })); let s1 = ps(tail(i0.toks), i0.cfg, i0.pr, i0.pay, i0.cbs); let cur = ps(tokens.buf, parsing, p, w.pay, w.cbs);
      assert(!(argErr is Nil) ==> s_head(s1, i0.toks[0], out0, ctx) == Err::<SH, PR>(PR { st: cur, out: out0, err: argErr, end: false }));
      assert(!(argErr is Nil) ==> p_block(i0, out0, ctx) == PR { st: cur, out: out0, err: argErr, end: true });
      assert(argErr is Nil ==> p_block(i0, out0, ctx) == after_head(p_head(cur, stmt->0, t, out0, ctx), t, commentsInArgs.s, stmt->0.Line, fileName, out0, ctx));
      assert(p_block(i0, out0, ctx) == p_block(ps(tokens_0.buf, parsing_0, p_0, w_0.pay, w_0.cbs), Seq::empty(), ctx_0));
  loop 2 ~ \bfnames\b
    snap pr2 = p
    snap stmt2 = stmt->0
    invariant @maps [*] p.included.nn && p.includeEdges.nn && p.includeInDegree.nn && p.options == p_0.options
    invariant @some [*] stmt is Some
    invariant @noblock [C14] stmt->0.Block.s.len() == 0
    invariant @included p == add_incs(pr2, parsing.File, rng2.s, ctx, ix2)
    invariant @indexes stmt->0 == (Directive { Includes: inc_list(pr2, parsing.File, rng2.s, ctx, stmt2.Includes, ix2), ..stmt2 })
    head lemma_incs(pr2, parsing.File, rng2.s, ctx, stmt2.Includes, ix2);
  loop 3 ~ Directives$|commentsInArgs|\[\]NgxToken$
    snap out3 = parsed.s
    invariant @wf [C14] wfs(parsed.s) && stmt is Some
    invariant @comments parsed.nn && parsed.s == with_comments(out3, rng3.s, ix3, stmt->0.Line, fileName)
    head lemma_comments(out3, rng3.s, ix3, stmt->0.Line, fileName);

func crossplane.Parse(filename, options) (pay, err)
  modifies options.Glob, w.sc, w.pay, w.cbs
  closure handleError = crossplane.Parse.handleError
  box payload = w.pay
  requires [*] w.opts == options_used(options)
  ensures @spec exists|n: int| n >= 0 && parsed_as(#[trigger] f_run(f_init(filename, w.opts, w.cbs), n), w.opts, pay, err)
  ensures @combined [C10] exists|n: int| n >= 0 && parsed_as(#[trigger] f_run(f_init(filename, w.opts, w.cbs), n), w.opts, pay, err) && (w.opts.CombineConfigs && !(err is Msg) && !f_run(f_init(filename, w.opts, w.cbs), n).stop ==> combines_to(f_run(f_init(filename, w.opts, w.cbs), n).pay, pay, err))
  entry lemma_f_run(f_init(filename, w.opts, w.cbs), 0);
  before crossplane.(*Payload).Combined [C10] no_cycle_no_endless_include(filename_0, w_0.opts, w_0.cbs, w.pay.Config.s.len() as int);
  loop 0
    invariant @wf [C14] wf_configs(w.pay)
    invariant @options [*] p.options == Some(w.opts) && options == w.opts && w.opts == w_0.opts && p.included.nn && p.includeEdges.nn && p.includeInDegree.nn
    invariant @run (FS { pr: p, pay: w.pay, cbs: w.cbs, err: GoErr::Nil, stop: false }) == f_run(f_init(filename, w_0.opts, w_0.cbs), w.pay.Config.s.len() as int)
    head let fs = f_run(f_init(filename, w_0.opts, w_0.cbs), w.pay.Config.s.len() as int); lemma_f_run(f_init(filename, w_0.opts, w_0.cbs), w.pay.Config.s.len() as int); lemma_keeps(f_start(fs), Seq::empty(), fs.pr.includes.s[0].ctx);
    post lemma_tables_run(filename, w_0.opts, w_0.cbs, w.pay.Config.s.len() as int);

func crossplane.(*parser).isAcyclic(p) (r)
  modifies p.includeInDegree
  requires has_graph(p) && p.includeInDegree.nn
  ensures @spec r == cyclic(p)
  loop 0 ~ map\[string\]int$
    invariant @zero queue.s == zero_degree(rngm0.m, rng0, ix0)
    head lemma_zero(rngm0.m, rng0, ix0);
    post lemma_zero_all(rngm0.m, rng0); lemma_kahn_start(p, queue.s);
  loop 1
    isnap done1 = the_done(p_0, fileCount, queue.s, p.includeInDegree.m)
    invariant @kahn some_done(p_0, fileCount, queue.s, p.includeInDegree.m) && fileCount >= 0 && p == (parser { includeInDegree: p.includeInDegree, ..p_0 }) && p.includeInDegree.nn
    decreases p_0.includeInDegree.m.dom().len() - fileCount
    head lemma_kahn_take(p_0, edges_of(p_0), the_done(p_0, fileCount, queue.s, p.includeInDegree.m), queue.s, p.includeInDegree.m);
    post lemma_kahn_end(p_0, edges_of(p_0), the_done(p_0, fileCount, queue.s, p.includeInDegree.m), p.includeInDegree.m);
  loop 2
    invariant @edges kahn(p_0, edges_of(p_0), done1.push(file), queue.s, p.includeInDegree.m, rng2.s.subrange(ix2, rng2.s.len() as int)) && p == (parser { includeInDegree: p.includeInDegree, ..p_0 }) && p.includeInDegree.nn
    head lemma_kahn_edge(p_0, edges_of(p_0), done1.push(file), queue.s, p.includeInDegree.m, rng2.s.subrange(ix2, rng2.s.len() as int)); assert(rng2.s.subrange(ix2, rng2.s.len() as int).subrange(1, rng2.s.len() - ix2) =~= rng2.s.subrange(ix2 + 1, rng2.s.len() as int));
    post assert(rng2.s.subrange(ix2, rng2.s.len() as int) =~= Seq::<S>::empty());

property C07
  roots crossplane.Parse, crossplane.(*parser).parse, crossplane.tokenError, crossplane.(*parser).openFile
  specs lex.rs, analyze.rs, maps.rs, parse.rs, graph.rs, parse_tree.rs, parse_thm.rs
property C05
  roots crossplane.Parse, crossplane.(*parser).parse, crossplane.tokenError, crossplane.(*parser).openFile, crossplane.enterBlockCtx, crossplane.analyze
  specs lex.rs, analyze.rs, maps.rs, parse.rs, graph.rs, parse_ctx.rs
property C18
  roots crossplane.Parse, crossplane.(*parser).parse, crossplane.tokenError, crossplane.(*parser).openFile, crossplane.analyze
  specs lex.rs, analyze.rs, maps.rs, parse.rs, graph.rs, parse_tree.rs, parse_ctx.rs
property C09
  roots crossplane.Parse, crossplane.(*parser).parse, crossplane.(*parser).openFile
  specs lex.rs, analyze.rs, maps.rs, parse.rs, graph.rs, parse_ctx.rs, parse_inc.rs
property C08
  roots crossplane.Parse, crossplane.(*parser).parse, crossplane.tokenError, crossplane.(*parser).openFile
  specs lex.rs, analyze.rs, maps.rs, parse.rs, graph.rs, parse_tree.rs, parse_thm.rs, parse_err.rs
property C10
  roots crossplane.Parse, crossplane.(*parser).parse, crossplane.(*parser).openFile, crossplane.(*parser).isAcyclic
  specs lex.rs, tree.rs, analyze.rs, maps.rs, parse.rs, graph.rs, parse_inc.rs, combine.rs, parse_comb.rs
