world sc: Sc
type crossplane.RegisterLexer = registerLexer
dispatch crossplane.RegisterLexer.applyLexOptions = crossplane.registerLexer.applyLexOptions

model bufio.NewScanner(r) = Some(scanner_of(r))
  set w.sc = Sc { cs: split_by(r, fnc!("bufio.ScanLines")), pos: 0, rd: r }
  note one scanner reads one input; read errors end it like the end of the input
model bufio.(*Scanner).Split(s, f)
  set w.sc = Sc { cs: split_by(w.sc.rd, f), pos: 0, rd: w.sc.rd }
model bufio.(*Scanner).Scan(s) = w.sc.pos < w.sc.cs.len()
  set w.sc.pos = if w.sc.pos < w.sc.cs.len() { w.sc.pos + 1 } else { w.sc.pos }
model bufio.(*Scanner).Text(s) = w.sc.cs[w.sc.pos - 1]
model strings.(*Builder).Len(*b) = b.data.len() as int
model strings.(*Builder).Reset(*b)
  set b.data = sempty()
model strings.(*Builder).WriteRune(*b, r) = rune_str(r).len() as int, GoErr::Nil
  set b.data = b.data + rune_str(r)
model crossplane.Lexer.Lex(l, *s, name) = Ch { buf: ext_toks(l, name, w.sc.cs, w.sc.pos), closed: true }
  let k: int = read_by(l, name, w.sc.cs, w.sc.pos)
  set s.tokenLine = s.tokenLine + lno(w.sc.cs, w.sc.pos + k) - lno(w.sc.cs, w.sc.pos)
  set w.sc.pos = w.sc.pos + k
  note an external lexer is a pure function of the name and of the rest of the input; it reads through the SubScanner it is given and closes its channel

func crossplane.registerLexer.applyLexOptions(rl, o)
  modifies o.extLexers
  ensures @spec o_n.extLexers == reg_lexers(o.extLexers, seq![rl])
  entry assert(seq![rl].drop_last() =~= Seq::empty()); assert(reg_lexers(o.extLexers, seq![rl].drop_last()) == o.extLexers);
  loop 0
    invariant @live [*] o.extLexers.nn
    invariant @names o.extLexers.m == reg_lex_names(mp_live(o_0.extLexers), rl.l, rng0.s.subrange(0, ix0))
    tail assert(rng0.s.subrange(0, ix0 + 1).drop_last() =~= rng0.s.subrange(0, ix0));
    post assert(rng0.s.subrange(0, ix0) =~= rng0.s);

func crossplane.LexWithOptions(r, options) (tc)
  modifies w.sc
  ensures @tokens tc.buf == lexed(reg_lexers(options.extLexers, options.Lexers.s), chars(r))
  ensures @closed [*] tc.closed
  loop 0
    invariant @lexers options == (LexOptions { extLexers: reg_lexers(options_0.extLexers, rng0.s.subrange(0, ix0)), ..options_0 })
    tail lemma_lexers(options_0.extLexers, rng0.s, ix0);
    post assert(rng0.s.subrange(0, ix0) =~= rng0.s);

func crossplane.tokenize(reader, tokenCh, options)
  modifies w.sc, tokenCh
  requires [*] !tokenCh.closed && tokenCh.buf.len() == 0
  ensures @tokens tokenCh_n.buf == lexed(options.extLexers, chars(reader))
  ensures @closed [*] tokenCh_n.closed
  entry [*] ax_chars(reader);
  entry assert(tokenCh.buf =~= Seq::empty());
  loop 0
    invariant @open [*] !tokenCh.closed
    invariant @input [*] w.sc.cs == chars(reader) && 0 <= w.sc.pos <= w.sc.cs.len()
    invariant @options options == options_0
    invariant @lines [*] tokenLine == lno(w.sc.cs, w.sc.pos)
    invariant @again [*] newToken == !readNext
    invariant @state [*] 0 <= lexState <= 4 && depth >= 0 && (lexState == 0 ==> token.data.len() == 0)
    invariant @pending [*] !readNext ==> lexState == 1 && token.data.len() == 0 && la != lit!("\r") && la != lit!("\\") && la != lit!("\\\r") && !esc && !is_space(la)
    invariant @run readNext ==> lex_run(options.extLexers, w.sc.cs, lx(tokenCh.buf, w.sc.pos, lexState, token.data, quote, esc, dupSpecialChar, depth, nextTokenIsDirective, tokenStartLine)) == lexed(options.extLexers, w.sc.cs)
    invariant @rerun !readNext ==> lex_run(options.extLexers, w.sc.cs, on_first(w.sc.cs, lx(tokenCh.buf, w.sc.pos, lexState, token.data, quote, esc, dupSpecialChar, depth, nextTokenIsDirective, tokenStartLine), la)) == lexed(options.extLexers, w.sc.cs)
    decreases [*] 2 * (w.sc.cs.len() - w.sc.pos) + (if readNext { 0int } else { 1 })
    head [*] if readNext && w.sc.pos < w.sc.cs.len() { lemma_char(w.sc.cs[w.sc.pos]); }
    head let l = lx(tokenCh.buf, w.sc.pos, lexState, token.data, quote, esc, dupSpecialChar, depth, nextTokenIsDirective, tokenStartLine);
      if readNext && w.sc.pos < w.sc.cs.len() { lemma_lex_step(options.extLexers, w.sc.cs, l); lemma_lex_end(options.extLexers, w.sc.cs, lex_step(options.extLexers, w.sc.cs, l)); }
      lemma_lex_end(options.extLexers, w.sc.cs, l); lemma_lex_end(options.extLexers, w.sc.cs, on_first(w.sc.cs, l, la));
  loop 1 ~ ^range .*chan NgxToken$
    snap out1 = tokenCh.buf
    invariant @open [*] !tokenCh.closed
    invariant @passed tokenCh.buf == out1 + rng1.buf.subrange(0, ix1)
    tail assert(tokenCh.buf =~= out1 + rng1.buf.subrange(0, ix1 + 1));
    post assert(rng1.buf.subrange(0, ix1) =~= rng1.buf);

func crossplane.(*SubScanner).Scan(e) (r)
  modifies w.sc, e.tokenLine
  requires [*] 0 <= w.sc.pos <= w.sc.cs.len() && e.tokenLine == lno(w.sc.cs, w.sc.pos)
  ensures @more [*] r == (w.sc.pos < w.sc.cs.len())
  ensures @moved [*] w_n.sc == (Sc { pos: w.sc.pos + (if r { 1int } else { 0 }), ..w.sc })
  ensures @line [*] e_n.tokenLine == lno(w.sc.cs, w_n.sc.pos)

property C01
  roots crossplane.LexWithOptions, crossplane.tokenize, crossplane.registerLexer.applyLexOptions
  specs lex.rs

property C02
  roots crossplane.LexWithOptions, crossplane.tokenize, crossplane.(*SubScanner).Scan
  specs lex.rs, lexlem.rs

property C03
  roots crossplane.LexWithOptions, crossplane.tokenize
  specs lex.rs, lexlem.rs

property C21
  roots crossplane.LexWithOptions, crossplane.tokenize, crossplane.LexWithLexer, crossplane.BuildWithBuilder, crossplane.registerLexer.applyLexOptions, crossplane.registerBuilder.applyBuildOptions, crossplane.(*SubScanner).Scan, crossplane.buildBlock, crossplane.Build
  specs lex.rs, tree.rs, quote.rs, build.rs

property C13
  roots crossplane.Enquote, crossplane.needsQuote, crossplane.escape, crossplane.repr, crossplane.LexWithOptions, crossplane.tokenize
  specs lex.rs, tree.rs, quote.rs, build.rs, quotelem.rs

func crossplane.LexWithLexer(l, names) (r)
  ensures @spec r == (registerLexer { l: l, stringTokens: names })
