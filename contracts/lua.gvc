model bufio.(*Scanner).Err(s) = GoErr::Nil
  note the reader does not fail
model .error.Error(e) = err_text(e)

func crossplane.(*Lua).Lex(l, s, matchedToken) (r)
  modifies w.sc, s.tokenLine
  requires [*] 0 <= w.sc.pos <= w.sc.cs.len() && s.tokenLine == lno(w.sc.cs, w.sc.pos)
  ensures @tokens r.buf == lua_toks(matchedToken, w.sc.cs, w.sc.pos)
  ensures @closed [*] r.closed
  ensures @read w_n.sc == (Sc { pos: lua_end(matchedToken, w.sc.cs, w.sc.pos), ..w.sc })
  ensures @line s_n.tokenLine == lno(w.sc.cs, w_n.sc.pos)
  requires forall|i: int| 0 <= i < w.sc.cs.len() ==> is_char(#[trigger] w.sc.cs[i])
  entry lemma_next(w.sc.cs, w.sc.pos); lemma_next(w.sc.cs, next_word(w.sc.cs, w.sc.pos));
  loop 0
    snap a = w.sc.pos
    invariant @input [*] w.sc == (Sc { pos: w.sc.pos, ..w_0.sc }) && 0 <= w.sc.pos <= w.sc.cs.len() && s.tokenLine == lno(w.sc.cs, w.sc.pos)
    invariant @open [*] !tokenCh.closed
    invariant @chan tokenCh.buf.len() == 0
    invariant @forward [*] a <= w.sc.pos
    invariant @word a <= next_word(w.sc.cs, a) <= w.sc.pos && arg == span(w.sc.cs, next_word(w.sc.cs, a), w.sc.pos) && word_end(w.sc.cs, w.sc.pos) == word_end(w.sc.cs, next_word(w.sc.cs, a)) && (arg.len() == 0 ==> w.sc.pos == a) || arg.len() == 0 && w.sc.pos == a
    decreases [*] w.sc.cs.len() - w.sc.pos
    head lemma_next(w.sc.cs, w.sc.pos); if w.sc.pos < w.sc.cs.len() { lemma_next(w.sc.cs, w.sc.pos + 1); } lemma_next(w.sc.cs, next_word(w.sc.cs, a));
    tail let b = next_word(w.sc.cs, a); let next = w.sc.cs[w.sc.pos - 1]; lemma_next(w.sc.cs, w.sc.pos - 1); lemma_next(w.sc.cs, w.sc.pos); assert(span(w.sc.cs, b, b) == sempty()); assert(sempty() + next =~= next); assert(is_char(w.sc.cs[w.sc.pos - 1]));
  loop 1 ~ isSpace\(
    snap b1 = w.sc.pos
    invariant @input [*] w.sc == (Sc { pos: w.sc.pos, ..w_0.sc }) && 0 < w.sc.pos <= w.sc.cs.len() && s.tokenLine == lno(w.sc.cs, w.sc.pos)
    invariant @forward [*] a < w.sc.pos && b1 <= w.sc.pos
    invariant @blank next == w.sc.cs[w.sc.pos - 1] && next_word(w.sc.cs, w.sc.pos - 1) == next_word(w.sc.cs, a)
    decreases [*] w.sc.cs.len() - w.sc.pos
    head lemma_next(w.sc.cs, w.sc.pos - 1); lemma_next(w.sc.cs, w.sc.pos);
    post lemma_next(w.sc.cs, w.sc.pos - 1);
  loop 2
    snap from = w.sc.pos
    snap out = tokenCh.buf
    invariant @input [*] w.sc == (Sc { pos: w.sc.pos, ..w_0.sc }) && 0 <= w.sc.pos <= w.sc.cs.len() && s.tokenLine == lno(w.sc.cs, w.sc.pos)
    invariant @open [*] !tokenCh.closed
    invariant @chan tokenCh.buf == out && tokenDepth == 0 && from <= w.sc.pos
    invariant @block lua_toks(matchedToken, w.sc.cs, w_0.sc.pos) == lua_block(out, w.sc.cs, from) && lua_end(matchedToken, w.sc.cs, w_0.sc.pos) == lua_block_end(w.sc.cs, from)
    invariant @blank next_word(w.sc.cs, w.sc.pos) == next_word(w.sc.cs, from)
    decreases [*] w.sc.cs.len() - w.sc.pos
    head lemma_next(w.sc.cs, w.sc.pos);
  loop 3
    snap body = w.sc.pos
    invariant @input [*] w.sc == (Sc { pos: w.sc.pos, ..w_0.sc }) && 0 <= w.sc.pos <= w.sc.cs.len() && s.tokenLine == lno(w.sc.cs, w.sc.pos)
    invariant @open [*] !tokenCh.closed
    invariant @chan tokenCh.buf == out && body <= w.sc.pos
    invariant @depth tokenDepth >= 1 && (LuaSt { depth: tokenDepth, inq: inQuotes, q: quoteType }) == lua_st(w.sc.cs, body, w.sc.pos)
    invariant @text tok.data == span(w.sc.cs, body, w.sc.pos)
    invariant @close lua_close(w.sc.cs, body, w.sc.pos) == lua_close(w.sc.cs, body, body)
    decreases [*] w.sc.cs.len() - w.sc.pos
    head lemma_close(w.sc.cs, body, w.sc.pos);

func crossplane.(*Lua).Build(l, stmt) (r)
  ensures @spec r == lua_built(stmt)

func crossplane.(*Lua).directiveNames(l) (r)
  ensures @all forall|i: int| 0 <= i < lua_names().len() ==> r.s.contains(#[trigger] lua_names()[i])

func crossplane.(*Lua).RegisterLexer(l) (r)
  ensures @self r.l == to_opq(Some(l))
  ensures @names forall|i: int| 0 <= i < lua_names().len() ==> r.stringTokens.s.contains(#[trigger] lua_names()[i])

func crossplane.(*Lua).RegisterBuilder(l) (r)
  ensures @self r.b == to_opq(Some(l))
  ensures @names forall|i: int| 0 <= i < lua_names().len() ==> r.directives.s.contains(#[trigger] lua_names()[i])

property C16
  roots crossplane.(*Lua).Lex, crossplane.(*Lua).Build, crossplane.(*Lua).directiveNames, crossplane.(*Lua).RegisterLexer, crossplane.(*Lua).RegisterBuilder, crossplane.(*SubScanner).Scan
  specs lex.rs, lua.rs
