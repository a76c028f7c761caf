func crossplane.analyzeMapBody(fname, parameter, term, mapCtx) (r)
  ensures @accept [C06,C05,C07,C08,C09,C10,C11,C18,C22] (r is Nil) == map_accepts(mapCtx, parameter.Directive, parameter.Args.s, term)
  ensures @where !(r is Nil) ==> err_at(r, fname, parameter.Line, mapCtx)
  entry lemma_maps(mapCtx, parameter.Directive);

property C06
  roots crossplane.analyzeMapBody, crossplane.hasValidArguments, crossplane.(*parser).parse, crossplane.Parse
  specs lex.rs, analyze.rs, maps.rs, parse.rs, graph.rs, parse_ctx.rs
