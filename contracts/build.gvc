type strings.Builder = Buf zero buf_empty()
type *strings.Builder = Buf
type io.StringWriter = Buf
type io.Writer = Buf
type io.WriteCloser = Buf
type bytes.Buffer = Buf zero buf_empty()
type *bytes.Buffer = Buf
type *os.File = Buf
type crossplane.RegisterBuilder = registerBuilder
dispatch crossplane.RegisterBuilder.applyBuildOptions = crossplane.registerBuilder.applyBuildOptions

model strings.(*Builder).WriteString(*b, s) = s.len() as int, GoErr::Nil
  set b.data = b.data + s
model io.StringWriter.WriteString(*b, s) = n, e
  any n: int
  any e: GoErr
  any d: S
  assume b.inf ==> e is Nil && d == s
  set b.data = b.data + d
model strings.(*Builder).String(*b) = b.data
model io.Writer.Write(*wr, p) = n, e
  any n: int
  any e: GoErr
  any d: S
  assume (wr.inf ==> e is Nil) && (e is Nil ==> d == p.s && n == p.s.len())
  set wr.data = wr.data + d
  set w.faults = if e is Nil { w.faults } else { w.faults.push(e) }
model crossplane.Builder.Build(b, stmt) = ext_build(b, stmt->0)
  note a builder is a pure function of the directive it is given
model utf8.DecodeRuneInString(s) = rune_at(s), rune_len(s)
  assume s.len() > 0 ==> 1 <= rune_len(s) <= s.len()
model utf8.DecodeRune(s) = rune_at(s.s), rune_len(s.s)
  assume s.s.len() > 0 ==> 1 <= rune_len(s.s) <= s.s.len()
model unicode.IsSpace(r) = uni_space(r)
model strings.ContainsRune(s, r) = in_set(s, r)
  requires forall|i: int| 0 <= i < s.len() ==> s[i] < 128u8
model strings.ContainsRune#var(s, r) = runes(s).contains(r)
model strings.ContainsAny(s, set) = has_any(runes(s), set)
  requires forall|i: int| 0 <= i < set.len() ==> set[i] < 128u8

func crossplane.registerBuilder.applyBuildOptions(rb, o)
  modifies o.extBuilders
  ensures @spec o_n.extBuilders == reg_builders(o.extBuilders, seq![rb])
  entry assert(seq![rb].drop_last() =~= Seq::empty()); assert(reg_builders(o.extBuilders, seq![rb].drop_last()) == o.extBuilders);
  loop 0
    invariant @live [*] o.extBuilders.nn
    invariant @names o.extBuilders.m == reg_names(mp_live(o_0.extBuilders), rb.b, rng0.s.subrange(0, ix0))
    tail assert(rng0.s.subrange(0, ix0 + 1).drop_last() =~= rng0.s.subrange(0, ix0));
    post assert(rng0.s.subrange(0, ix0) =~= rng0.s);

func crossplane.margin(options, depth) (r)
  requires [*] options.Indent > 0 && depth >= 0
  ensures @spec r == indent_text(options, depth)
  entry [*] lemma_mul(depth, options.Indent);
    if depth * options.Indent < 100 { lemma_repeat(lit!(" "), 100, depth * options.Indent); lemma_repeat(lit!("\t"), 100, depth); }

func crossplane.Enquote(arg) (r)
  ensures @spec r == enq(arg)

func crossplane.needsQuote(s) (r)
  ensures @spec r == needs_quote(s)
  entry if escaped(s).len() > 0 { ax_rune_len(escaped(s)); }
  loop 0
    invariant @state quote_from(runes(chars), ix0, expanding, prev, char) == quote_from(tail_runes(escaped(s)), 0, false, 0, rune_at(escaped(s)))

func crossplane.escape(s) (r)
  ensures @spec r == escaped(s)
  loop 0
    invariant @text sb.data == esc_text(runes(s), ix0) && pc == esc_prev(runes(s), ix0) && (ix0 > 0 ==> cc == runes(s)[ix0 - 1]) && (ix0 == 0 ==> cc == 0)

func crossplane.repr(s) (r)
  ensures @spec r == repr_text(s)
  entry [*] ax_go_quote(s); let q0 = go_quote(s);
    lemma_replace_len(q0, lit!("\\\""), lit!("\"")); lemma_replace_len(replace_all(q0, lit!("\\\""), lit!("\"")), lit!("'"), lit!("\\'"));
  loop 0
    invariant @none forall|i: int| 0 <= i < ix0 ==> runes(s)[i] != 34
    invariant [*] q == go_quote(s)

func crossplane.buildBlock(sb, parent, block, depth, lastLine, options)
  nilable parent
  modifies sb
  requires [*] sb.inf && wfs(block.s) && depth >= 0 && options.Indent > 0
  ensures @text sb_n.data == body_text(sb.data, block.s, block.s.len() as int, parent is None, depth, lastLine, options)
  ensures @inf [*] sb_n.inf
  decreases dsizes_to(block.s, block.s.len() as int)
  entry lemma_body0(sb.data, block.s, parent is None, depth, lastLine, options);
  loop 0 ~ ^range block\b|Directives$
    invariant @text sb.data == body_text(sb_0.data, block.s, ix0, parent is None, depth, lastLine_0, options)
    invariant @line lastLine == last_line(block.s, ix0, lastLine_0, options)
    invariant [*] sb.inf
    head [C14] assert(wf(block.s[ix0]));
    head lemma_dsize(block.s, ix0); assert(wf(block.s[ix0])); lemma_body(sb_0.data, block.s, ix0, parent is None, depth, lastLine_0, options);
  loop 1
    snap d1 = sb.data
    invariant [*] sb.inf
    invariant @args sb.data == cond_text(d1, stmt->0.Args.s, ix1)
  loop 2
    snap d2 = sb.data
    invariant [*] sb.inf
    invariant @args sb.data == args_text(d2, stmt->0.Args.s, ix2)

func crossplane.Build(wr, config, options) (r)
  modifies wr, options.Indent, options.extBuilders, w.faults
  requires [*] options.Indent >= 0 && wfs(config.Parsed.s)
  ensures @text r is Nil ==> wr_n.data == wr.data + built(config, options)
  ensures @opts r is Nil ==> options_n == final_options(options)
  ensures @failed [C12,C17,C21] w_n.faults == (if r is Nil { w.faults } else { w.faults.push(r) }) && (wr.inf ==> r is Nil && wr_n.inf) && wr_n.name == wr.name
  loop 0 ~ \[\]RegisterBuilder$
    invariant @indent [C14] options.Indent > 0
    invariant @builders options == (BuildOptions { Indent: if options_0.Indent == 0 { 4 } else { options_0.Indent }, extBuilders: reg_builders(options_0.extBuilders, rng0.s.subrange(0, ix0)), ..options_0 })
    tail lemma_builders(options_0.extBuilders, rng0.s, ix0);
    post assert(rng0.s.subrange(0, ix0) =~= rng0.s);
  exit assert(r is Nil ==> wr_n.data =~= wr.data + built(config, options));

property C12
  roots crossplane.Build, crossplane.buildBlock, crossplane.margin, crossplane.Enquote, crossplane.registerBuilder.applyBuildOptions
  specs tree.rs, quote.rs, build.rs

func crossplane.BuildWithBuilder(b, names) (r)
  ensures @spec r == (registerBuilder { b: b, directives: names })

property C22
  roots crossplane.Build, crossplane.buildBlock, crossplane.Parse, crossplane.(*parser).parse, crossplane.(*parser).openFile, crossplane.Enquote
  specs lex.rs, tree.rs, quote.rs, build.rs, quotelem.rs, round.rs, roundlex.rs, analyze.rs, maps.rs, parse.rs, graph.rs, parse_tree.rs, reparse.rs
