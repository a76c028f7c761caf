model functype crossplane.MatchFunc(f, name) = match_masks(f, name), match_found(f, name)
  note a directive source is a pure function of the directive name

func crossplane.validFlag(s) (r)
  ensures @spec r == valid_flag(s)

func crossplane.validExpr(d) (r)
  ensures @spec r == valid_expr(d.Args.s)

func crossplane.prepareIfArgs(d) (r)
  modifies d.Args
  ensures @spec d_n.Args.s == if_args(d.Args.s)
  ensures @same [*] r == Some(d_n) && d_n.Args.nn == d.Args.nn
  entry let a = d.Args.s; assert(a.len() > 0 ==> a[a.len() - 1] == a.last());
  exit assert(d_n.Args.s =~= if_args(d.Args.s));

func crossplane.blockCtx.key(c) (r)
  ensures @spec r == ctx_key(c.s)

func crossplane.blockCtx.getLastBlock(c) (r)
  ensures @spec r == last_block(c.s)

func crossplane.enterBlockCtx(stmt, ctx) (r)
  ensures @spec r.s == enter_ctx(stmt.Directive, ctx.s) && r.nn
  exit assert(r.s =~= enter_ctx(stmt.Directive, ctx.s));
  freshresult

func crossplane.DefaultDirectivesMatchFunc(directive) (masks, matched)
  ensures @masks masks == default_masks(directive)
  ensures @found matched == default_found(directive)

func crossplane.(*Directive).String(d) (r)

func crossplane.analyze(fname, stmt, term, ctx, options) (r)
  ensures @accept [C04,C05,C06,C07,C08,C09,C10,C11,C18,C22] (r is Nil) == accepts(stmt.Directive, stmt.Args.s, term, ctx.s, options)
  ensures @where [C05,C06,C07,C08,C09,C10,C11,C18,C22] !(r is Nil) ==> err_at(r, fname, stmt.Line, last_block(ctx.s))
  entry lemma_contexts(ctx_key(ctx.s));
    lemma_accept(all_masks(options.DirectiveSources.s, stmt.Directive), ctx_key(ctx.s), stmt.Args.s, term, options);
  loop 0 ~ DirectiveSources|\[\]MatchFunc$
    invariant @masks masks.s == src_masks(rng0.s.subrange(0, ix0), directiveName)
    invariant @known knownDirective == src_known(rng0.s.subrange(0, ix0), directiveName)
    tail lemma_src_step(rng0.s, ix0, directiveName);
    post assert(rng0.s.subrange(0, ix0) =~= rng0.s);
  loop 1 ~ ^range masks\b
    invariant @filter ctxMasks.s == ctx_filter(rng1.s.subrange(0, ix1), currCtx)
    tail lemma_filter_step(rng1.s, ix1, currCtx);
    post assert(rng1.s.subrange(0, ix1) =~= rng1.s);
    post assert(masks.s == all_masks(options.DirectiveSources.s, stmt.Directive));
      lemma_accept(masks.s, ctx_key(ctx.s), stmt.Args.s, term, options);
  loop 2 ~ ^(range|for).*\b(ctxMasks)\b
    invariant @none forall|j: int| 0 <= j < ix2 ==> !rule_fits(#[trigger] ctxMasks.s[j], stmt.Args.s, term)

func crossplane.hasValidArguments(mask, args) (r)
  ensures @spec r == args_fit(mask, args.s)

property C04
  roots crossplane.analyze, crossplane.hasValidArguments, crossplane.validFlag, crossplane.validExpr, crossplane.DefaultDirectivesMatchFunc
  specs analyze.rs
property C19
  roots crossplane.prepareIfArgs
  specs analyze.rs
