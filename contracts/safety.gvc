property C14
  lean
  roots crossplane.Parse, crossplane.(*Payload).Combined, crossplane.Build, crossplane.BuildWithBuilder, crossplane.LexWithOptions, crossplane.LexWithLexer, crossplane.Enquote, crossplane.(*Lua).Lex, crossplane.(*Lua).Build, crossplane.(*Lua).directiveNames, crossplane.(*Lua).RegisterLexer, crossplane.(*Lua).RegisterBuilder, crossplane.(*SubScanner).Scan, crossplane.(*Directive).Equal, crossplane.hasValidArguments
  specs lex.rs, tree.rs, analyze.rs, maps.rs, parse.rs, graph.rs, combine.rs, build.rs, lua.rs, quote.rs
