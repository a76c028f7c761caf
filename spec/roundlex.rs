// ---- the tokens of a tree ----
pub type Tk = (S, bool);
pub open spec fn t_words(a: Seq<S>, k: int) -> Seq<Tk> decreases k { if k <= 0 { Seq::empty() } else { t_words(a, k - 1).push((a[k - 1], needs_quote(a[k - 1]))) } }
// the words of an if condition, up to the k-th argument
pub open spec fn t_cond(a: Seq<S>, k: int) -> Seq<Tk> decreases k {
    if k <= 0 { Seq::empty().push((lit!("("), false)) }
    else if k == 1 && !needs_quote(a[0]) { Seq::empty().push((lit!("(") + a[0], false)) }
    else { t_cond(a, k - 1).push((a[k - 1], needs_quote(a[k - 1]))) }
}
pub open spec fn t_paren(c: Seq<Tk>) -> Seq<Tk> { if c.last().1 { c.push((lit!(")"), false)) } else { c.drop_last().push((c.last().0 + lit!(")"), false)) } }
pub open spec fn t_args(x: Directive) -> Seq<Tk> { if is_if(x) { t_paren(t_cond(x.Args.s, x.Args.s.len() as int)) } else { t_words(x.Args.s, x.Args.s.len() as int) } }
pub open spec fn tk1(s: S) -> Seq<Tk> { Seq::empty().push((s, false)) }
pub open spec fn t_head(x: Directive) -> Seq<Tk> { Seq::empty().push((x.Directive, needs_quote(x.Directive))) + t_args(x) }
pub open spec fn t_stmt(s: Option<Directive>) -> Seq<Tk>
    decreases s, 0nat
{
    match s { None => Seq::empty(), Some(x) =>
        if is_comment(x) { tk1(lit!("#") + x.Comment->0) }
        else if !x.Block.nn { t_head(x) + tk1(lit!(";")) }
        else { t_head(x) + tk1(lit!("{")) + t_body(x.Block.s, x.Block.s.len() as int) + tk1(lit!("}")) }
    }
}
#[verifier::opaque]
pub open spec fn t_body(b: Seq<Option<Directive>>, k: int) -> Seq<Tk>
    decreases b, k
{
    if k <= 0 || k > b.len() { Seq::empty() } else { t_body(b, k - 1) + t_stmt(b[k - 1]) }
}
pub proof fn lemma_t_body(b: Seq<Option<Directive>>, k: int)
    requires 0 <= k < b.len()
    ensures t_body(b, 0) == Seq::<Tk>::empty(), t_body(b, k + 1) == t_body(b, k) + t_stmt(b[k])
{ reveal(t_body); }
pub proof fn lemma_t_block(x: Directive)
    requires !is_comment(x), x.Block.nn
    ensures t_stmt(Some(x)) == t_head(x) + tk1(lit!("{")) + t_body(x.Block.s, x.Block.s.len() as int) + tk1(lit!("}"))
{ reveal(t_body); }
// these are the tokens, on whatever lines
pub open spec fn listed(out: Seq<NgxToken>, ks: Seq<Tk>) -> bool {
    out.len() == ks.len() && forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).Value == ks[i].0 && out[i].IsQuoted == ks[i].1 && out[i].Error is Nil
}

// ---- reading the text ----
// after n characters: the tokens ks, in depth blocks, and
// kind 0: between words; 1: in the word tok; 2: in the comment tok; 3: between words of a statement
#[verifier::opaque]
pub open spec fn at(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int, kind: int, tok: S) -> bool {
    exists|l: Lx| #[trigger] is_at(x, cs, l, n, ks, depth, kind, tok)
}
pub open spec fn is_at(x: Mp<S, Opq>, cs: Seq<S>, l: Lx, n: int, ks: Seq<Tk>, depth: int, kind: int, tok: S) -> bool {
    &&& 0 <= n <= cs.len() && lex_run(x, cs, lx0()) == lex_run(x, cs, l) && l.i == n && !l.done && !l.esc && l.depth == depth && depth >= 0 && listed(l.out, ks) && l.tok == tok
    &&& kind == 0 || kind == 3 ==> l.mode == 0 && tok == sempty()
    &&& kind == 3 ==> !l.term
    &&& kind == 1 ==> l.mode == 1 && tok.len() > 0 && !l.term
    &&& kind == 2 ==> l.mode == 2 && tok.len() > 0
    &&& 0 <= kind <= 3
}
proof fn lemma_at(x: Mp<S, Opq>, cs: Seq<S>, l: Lx, n: int, ks: Seq<Tk>, depth: int, kind: int, tok: S)
    requires is_at(x, cs, l, n, ks, depth, kind, tok)
    ensures at(x, cs, n, ks, depth, kind, tok), kind == 3 ==> at(x, cs, n, ks, depth, 0, tok)
{ reveal(at); assert(kind == 3 ==> is_at(x, cs, l, n, ks, depth, 0, tok)); }
proof fn lemma_get(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int, kind: int, tok: S) -> (l: Lx)
    requires at(x, cs, n, ks, depth, kind, tok)
    ensures is_at(x, cs, l, n, ks, depth, kind, tok)
{ reveal(at); choose|l: Lx| is_at(x, cs, l, n, ks, depth, kind, tok) }
proof fn lemma_weaker(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int, tok: S)
    requires at(x, cs, n, ks, depth, 3, tok)
    ensures at(x, cs, n, ks, depth, 0, tok)
{ let l = lemma_get(x, cs, n, ks, depth, 3, tok); lemma_at(x, cs, l, n, ks, depth, 3, tok); }
proof fn lemma_listed(out: Seq<NgxToken>, ks: Seq<Tk>, t: NgxToken)
    requires listed(out, ks), t.Error is Nil
    ensures listed(out.push(t), ks.push((t.Value, t.IsQuoted)))
{ }
// the ASCII characters that matter to the lexer
proof fn lemma_codes()
    ensures lit!("{") == seq![123u8], lit!("}") == seq![125u8], lit!(";") == seq![59u8], lit!("\"") == seq![34u8], lit!("'") == seq![39u8],
        lit!("\\") == seq![92u8], lit!("\r") == seq![13u8], lit!("#") == seq![35u8], lit!("\n") == seq![10u8], lit!("(") == seq![40u8], lit!(")") == seq![41u8]
{
    lits_ax();
    assert(lit!("{") =~= seq![123u8]); assert(lit!("}") =~= seq![125u8]); assert(lit!(";") =~= seq![59u8]); assert(lit!("\"") =~= seq![34u8]); assert(lit!("'") =~= seq![39u8]);
    assert(lit!("\\") =~= seq![92u8]); assert(lit!("\r") =~= seq![13u8]); assert(lit!("#") =~= seq![35u8]); assert(lit!("\n") =~= seq![10u8]); assert(lit!("(") =~= seq![40u8]); assert(lit!(")") =~= seq![41u8]);
}
proof fn lemma_one(r: int, q: int)
    requires ascii(r), ascii(q), r != q
    ensures seq![r as u8] != seq![q as u8]
{ assert(seq![r as u8][0] != seq![q as u8][0]); }
proof fn lemma_blank(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int, kind: int, tok: S, r: int)
    requires no_ext(x), at(x, cs, n, ks, depth, kind, tok), n < cs.len(), cs[n] == rune_str(r), r == 32 || r == 9 || r == 10, kind == 2 ==> r == 10
    ensures ({
        let k2 = if kind == 1 || kind == 2 { ks.push((tok, false)) } else { ks };
        at(x, cs, n + 1, k2, depth, 0, sempty()) && (kind == 1 || kind == 3 ==> at(x, cs, n + 1, k2, depth, 3, sempty()))
    })
{
    let l = lemma_get(x, cs, n, ks, depth, kind, tok);
    lemma_codes(); ax_rune(r); lemma_one(r, 92); lemma_one(r, 13);
    lemma_lex_step(x, cs, l);
    let m = lex_step(x, cs, l);
    let c = seq![r as u8];
    assert(r == 10 ==> is_eol(c)) by { assert(c.subrange(0, 1) =~= c); }
    assert(c != lit!("\\") && c != lit!("\r"));
    assert(is_space(c));
    let k2 = if kind == 1 || kind == 2 { ks.push((tok, false)) } else { ks };
    if kind == 1 || kind == 2 { lemma_listed(l.out, ks, a_token(cs, l, false)); }
    lemma_at(x, cs, m, n + 1, k2, depth, if kind == 1 || kind == 3 { 3 } else { 0 }, sempty());
}
proof fn lemma_semi(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int, kind: int, tok: S)
    requires no_ext(x), at(x, cs, n, ks, depth, kind, tok), kind == 1 || kind == 3, n < cs.len(), cs[n] == rune_str(59)
    ensures at(x, cs, n + 1, (if kind == 1 { ks.push((tok, false)) } else { ks }).push((lit!(";"), false)), depth, 0, sempty())
{
    let l = lemma_get(x, cs, n, ks, depth, kind, tok);
    lemma_codes(); ax_rune(59);
    let c = seq![59u8];
    lemma_one(59, 92); lemma_one(59, 13); lemma_one(59, 123); lemma_one(59, 125); lemma_one(59, 34); lemma_one(59, 39); lemma_one(59, 35);
    lemma_lex_step(x, cs, l);
    let m = lex_step(x, cs, l);
    assert(c != lit!("\\") && c != lit!("\r"));
    let k1 = if kind == 1 { ks.push((tok, false)) } else { ks };
    let i1 = Lx { i: l.i + 1, dir: l.dir || is_eol(c), ..l };
    let b = if kind == 1 { i1 } else { Lx { start: lno(cs, i1.i), mode: 1, ..i1 } };
    assert(m == on_special(cs, b, c));
    let f = if kind == 1 { emit_tok(cs, b, false) } else { b };
    if kind == 1 { lemma_listed(l.out, ks, a_token(cs, b, false)); }
    lemma_listed(f.out, k1, a_token(cs, Lx { tok: c, ..f }, false));
    lemma_at(x, cs, m, n + 1, k1.push((c, false)), depth, 0, sempty());
}
proof fn lemma_brace(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int, r: int)
    requires no_ext(x), n < cs.len(), cs[n] == rune_str(r), r == 123 && at(x, cs, n, ks, depth, 3, sempty()) || r == 125 && at(x, cs, n, ks, depth, 0, sempty()) && depth > 0
    ensures at(x, cs, n + 1, ks.push((if r == 123 { lit!("{") } else { lit!("}") }, false)), if r == 123 { depth + 1 } else { depth - 1 }, 0, sempty())
{
    let kind = if r == 123 { 3int } else { 0 };
    let l = lemma_get(x, cs, n, ks, depth, kind, sempty());
    lemma_codes(); ax_rune(r);
    let c = seq![r as u8];
    lemma_one(r, 92); lemma_one(r, 13); lemma_one(r, 59); lemma_one(r, 34); lemma_one(r, 39); lemma_one(r, 35);
    lemma_one(123, 125); lemma_one(r, 10);
    lemma_lex_step(x, cs, l);
    let m = lex_step(x, cs, l);
    assert(c != lit!("\\") && c != lit!("\r"));
    let i1 = Lx { i: l.i + 1, dir: l.dir || is_eol(c), ..l };
    let b = Lx { start: lno(cs, i1.i), mode: 1, ..i1 };
    assert(!has_suffix(sempty(), lit!("$"))) by { lits_ax(); }
    assert(m == on_special(cs, b, c));
    lemma_listed(b.out, ks, a_token(cs, Lx { tok: c, ..b }, false));
    lemma_at(x, cs, m, n + 1, ks.push((c, false)), if r == 123 { depth + 1 } else { depth - 1 }, 0, sempty());
}
proof fn lemma_hash(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int)
    requires no_ext(x), n < cs.len(), cs[n] == rune_str(35), at(x, cs, n, ks, depth, 0, sempty())
    ensures at(x, cs, n + 1, ks, depth, 2, lit!("#"))
{
    let l = lemma_get(x, cs, n, ks, depth, 0, sempty());
    lemma_codes(); ax_rune(35);
    lemma_one(35, 92); lemma_one(35, 13);
    lemma_lex_step(x, cs, l);
    assert(seq![35u8] != lit!("\\") && seq![35u8] != lit!("\r"));
    assert(sempty() + seq![35u8] =~= seq![35u8]);
    lemma_at(x, cs, lex_step(x, cs, l), n + 1, ks, depth, 2, lit!("#"));
}
proof fn lemma_in_comment(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int, tok: S, rs: Seq<int>)
    requires no_ext(x), at(x, cs, n, ks, depth, 2, tok), simple(rs), spells(cs, n, rs)
    ensures at(x, cs, n + rs.len(), ks, depth, 2, tok + cat(rs))
    decreases rs.len()
{
    if rs.len() == 0 { assert(tok + cat(rs) =~= tok); }
    else {
        let r = rs.subrange(1, rs.len() as int);
        let l = lemma_get(x, cs, n, ks, depth, 2, tok);
        assert(printable(rs[0]) && rs[0] != 92);
        lemma_plain_tail(rs);
        lemma_codes(); ax_rune(rs[0]);
        lemma_distinct(rs[0], 92); lemma_distinct(rs[0], 13);
        assert(cs[n + 0] == rune_str(rs[0]));
        lemma_lex_step(x, cs, l);
        lemma_at(x, cs, lex_step(x, cs, l), n + 1, ks, depth, 2, tok + rune_str(rs[0]));
        lemma_spells_tail(cs, n, rs, 1);
        lemma_in_comment(x, cs, n + 1, ks, depth, tok + rune_str(rs[0]), r);
        assert(tok + rune_str(rs[0]) + cat(r) =~= tok + cat(rs));
    }
}
pub open spec fn wordys(rs: Seq<int>) -> bool { forall|k: int| 0 <= k < rs.len() ==> wordy(#[trigger] rs[k]) }
// more of a word
proof fn lemma_more(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int, tok: S, rs: Seq<int>)
    requires no_ext(x), at(x, cs, n, ks, depth, 1, tok), simple(rs), wordys(rs), spells(cs, n, rs)
    ensures at(x, cs, n + rs.len(), ks, depth, 1, tok + cat(rs))
{
    let l = lemma_get(x, cs, n, ks, depth, 1, tok);
    lemma_in_word(x, cs, l, rs);
    let m = Lx { tok: l.tok + cat(rs), i: l.i + rs.len(), ..l };
    lemma_at(x, cs, m, n + rs.len(), ks, depth, 1, tok + cat(rs));
}
// a word
proof fn lemma_first(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int, rs: Seq<int>)
    requires no_ext(x), at(x, cs, n, ks, depth, 0, sempty()), simple(rs), wordys(rs), rs.len() > 0, rs[0] != 35, spells(cs, n, rs)
    ensures at(x, cs, n + rs.len(), ks, depth, 1, cat(rs))
{
    let l = lemma_get(x, cs, n, ks, depth, 0, sempty());
    lits_ax();
    assert(printable(rs[0]) && rs[0] != 92); assert(wordy(rs[0]));
    lemma_not_lits(rs[0]);
    assert(cs[n + 0] == rune_str(rs[0]));
    lemma_lex_step(x, cs, l);
    let c = rune_str(rs[0]);
    let l1 = Lx { i: l.i + 1, start: lno(cs, l.i + 1), mode: 1, tok: c, term: false, ..l };
    assert(sempty() + c =~= c);
    assert(lex_step(x, cs, l) == l1);
    lemma_at(x, cs, l1, n + 1, ks, depth, 1, c);
    let r = rs.subrange(1, rs.len() as int);
    lemma_plain_tail(rs); lemma_spells_tail(cs, n, rs, 1);
    assert forall|k: int| 0 <= k < r.len() implies wordy(#[trigger] r[k]) by { assert(r[k] == rs[k + 1]); }
    lemma_more(x, cs, n + 1, ks, depth, c, r);
    assert(c + cat(r) =~= cat(rs));
}
proof fn lemma_quoted(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int, s: S)
    requires no_ext(x), at(x, cs, n, ks, depth, 0, sempty()), fine(s), needs_quote(s), spells(cs, n, q_word(s))
    ensures at(x, cs, n + q_word(s).len(), ks.push((s, true)), depth, 3, sempty())
{
    let l = lemma_get(x, cs, n, ks, depth, 0, sempty());
    let rs = runes(s);
    quoted_reads_back(x, cs, l, rs);
    let m = choose|m: Lx| lex_run(x, cs, l) == lex_run(x, cs, m) && #[trigger] m.out == read_back(cs, l, rs, 0) && m.mode == 0 && m.i == l.i + spelled(rs).len() && m.tok == sempty() && !m.esc && !m.done && !m.term && m.depth == l.depth;
    lemma_listed(l.out, ks, NgxToken { Value: cat(rs), Line: lno(cs, l.i + 1), IsQuoted: needs_quote(cat(rs)), Error: GoErr::Nil });
    lemma_at(x, cs, m, n + q_word(s).len(), ks.push((s, true)), depth, 3, sempty());
}
// ks.last() is the word just read
pub open spec fn word_at(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int) -> bool {
    ks.len() > 0 && if ks.last().1 { at(x, cs, n, ks, depth, 3, sempty()) } else { at(x, cs, n, ks.drop_last(), depth, 1, ks.last().0) }
}
proof fn lemma_word(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int, s: S)
    requires no_ext(x), at(x, cs, n, ks, depth, 0, sempty()), fine(s), spells(cs, n, q_word(s))
    ensures word_at(x, cs, n + q_word(s).len(), ks.push((s, needs_quote(s))), depth)
{
    let k = ks.push((s, needs_quote(s)));
    assert(k.drop_last() =~= ks);
    if needs_quote(s) { lemma_quoted(x, cs, n, ks, depth, s); }
    else { lemma_unquoted(runes(s)); lemma_first(x, cs, n, ks, depth, runes(s)); }
}
// a blank after a word
proof fn lemma_gap(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int)
    requires no_ext(x), word_at(x, cs, n, ks, depth), n < cs.len(), cs[n] == rune_str(32)
    ensures at(x, cs, n + 1, ks, depth, 3, sempty()), at(x, cs, n + 1, ks, depth, 0, sempty())
{
    assert(ks.drop_last().push(ks.last()) =~= ks);
    if ks.last().1 { lemma_blank(x, cs, n, ks, depth, 3, sempty(), 32); } else { lemma_blank(x, cs, n, ks.drop_last(), depth, 1, ks.last().0, 32); }
    lemma_weaker(x, cs, n + 1, ks, depth, sempty());
}
proof fn lemma_stop(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int)
    requires no_ext(x), word_at(x, cs, n, ks, depth), n < cs.len(), cs[n] == rune_str(59)
    ensures at(x, cs, n + 1, ks.push((lit!(";"), false)), depth, 0, sempty())
{
    assert(ks.drop_last().push(ks.last()) =~= ks);
    if ks.last().1 { lemma_semi(x, cs, n, ks, depth, 3, sempty()); } else { lemma_semi(x, cs, n, ks.drop_last(), depth, 1, ks.last().0); }
}
// the characters of a + b
proof fn lemma_split(cs: Seq<S>, n: int, a: Seq<int>, b: Seq<int>)
    requires spells(cs, n, a + b)
    ensures spells(cs, n, a), spells(cs, n + a.len(), b)
{
    let c = a + b;
    assert forall|j: int| 0 <= j < a.len() implies cs[n + j] == rune_str(#[trigger] a[j]) by { assert(c[j] == a[j]); }
    assert forall|j: int| 0 <= j < b.len() implies cs[n + a.len() + j] == rune_str(#[trigger] b[j]) by { assert(c[a.len() + j] == b[j]); assert(cs[n + (a.len() + j)] == rune_str(c[a.len() + j])); }
}
proof fn lemma_char_at(cs: Seq<S>, n: int, r: int)
    requires spells(cs, n, seq![r])
    ensures n < cs.len(), cs[n] == rune_str(r)
{ assert(seq![r][0] == r); assert(cs[n + 0] == rune_str(r)); }
proof fn lemma_lex_args(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int, a: Seq<S>, k: int)
    requires no_ext(x), word_at(x, cs, n, ks, depth), spells(cs, n, q_args(a, k)), 0 <= k <= a.len(), forall|i: int| 0 <= i < a.len() ==> fine(#[trigger] a[i])
    ensures word_at(x, cs, n + q_args(a, k).len(), ks + t_words(a, k), depth)
    decreases k
{
    if k == 0 { assert(ks + t_words(a, k) =~= ks); }
    else {
        let p = q_args(a, k - 1); let w = q_word(a[k - 1]);
        lemma_split(cs, n, p + seq![32int], w); lemma_split(cs, n, p, seq![32int]);
        lemma_char_at(cs, n + p.len(), 32);
        lemma_lex_args(x, cs, n, ks, depth, a, k - 1);
        let k1 = ks + t_words(a, k - 1);
        lemma_gap(x, cs, n + p.len(), k1, depth);
        lemma_word(x, cs, n + p.len() + 1, k1, depth, a[k - 1]);
        assert(k1.push((a[k - 1], needs_quote(a[k - 1]))) =~= ks + t_words(a, k));
    }
}
proof fn lemma_lex_cond(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int, a: Seq<S>, k: int)
    requires no_ext(x), word_at(x, cs, n, ks.push((lit!("("), false)), depth), spells(cs, n, q_cond(a, k)), 0 <= k <= a.len(), forall|i: int| 0 <= i < a.len() ==> fine(#[trigger] a[i])
    ensures word_at(x, cs, n + q_cond(a, k).len(), ks + t_cond(a, k), depth)
    decreases k
{
    let kp = ks.push((lit!("("), false));
    if k == 0 { assert(ks + t_cond(a, k) =~= kp); }
    else if k == 1 && !needs_quote(a[0]) {
        let rs = runes(a[0]);
        lemma_unquoted(rs);
        assert(kp.drop_last() =~= ks);
        assert(kp.last().0 == lit!("("));
        lemma_more(x, cs, n, ks, depth, lit!("("), rs);
        let k2 = ks + t_cond(a, k);
        assert(k2.drop_last() =~= ks); assert(k2.last() == (lit!("(") + a[0], false));
    } else {
        let p = q_cond(a, k - 1); let w = q_word(a[k - 1]);
        lemma_split(cs, n, p + seq![32int], w); lemma_split(cs, n, p, seq![32int]);
        lemma_char_at(cs, n + p.len(), 32);
        lemma_lex_cond(x, cs, n, ks, depth, a, k - 1);
        let k1 = ks + t_cond(a, k - 1);
        lemma_gap(x, cs, n + p.len(), k1, depth);
        lemma_word(x, cs, n + p.len() + 1, k1, depth, a[k - 1]);
        assert(k1.push((a[k - 1], needs_quote(a[k - 1]))) =~= ks + t_cond(a, k));
    }
}
proof fn lemma_t_cond_len(a: Seq<S>, k: int)
    ensures t_cond(a, k).len() > 0
    decreases k
{ if k > 0 { lemma_t_cond_len(a, k - 1); } }
proof fn lemma_close(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int, c: Seq<Tk>)
    requires no_ext(x), c.len() > 0, word_at(x, cs, n, ks + c, depth), 0 <= n < cs.len(), cs[n] == rune_str(41)
    ensures word_at(x, cs, n + 1, ks + t_paren(c), depth)
{
    lemma_codes(); ax_rune(41);
    let rs = seq![41int]; lemma_cat1(41);
    assert(spells(cs, n, rs)) by { assert forall|j: int| 0 <= j < rs.len() implies cs[n + j] == rune_str(#[trigger] rs[j]) by { assert(j == 0); assert(rs[j] == 41); } }
    let kc = ks + c; let k2 = ks + t_paren(c);
    assert(kc.last() == c.last());
    if c.last().1 {
        lemma_weaker(x, cs, n, kc, depth, sempty());
        lemma_first(x, cs, n, kc, depth, rs);
        assert(k2.drop_last() =~= kc); assert(k2.last() == (lit!(")"), false));
    } else {
        lemma_more(x, cs, n, kc.drop_last(), depth, c.last().0, rs);
        assert(k2.drop_last() =~= kc.drop_last()); assert(k2.last() == (c.last().0 + lit!(")"), false));
    }
}
proof fn lemma_lex_head(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int, d: Directive)
    requires no_ext(x), at(x, cs, n, ks, depth, 0, sempty()), fine_one(d), spells(cs, n, q_head(d))
    ensures word_at(x, cs, n + q_head(d).len(), ks + t_head(d), depth)
{
    let w = q_word(d.Directive); let a = d.Args.s; let m = a.len() as int;
    let k1 = ks.push((d.Directive, needs_quote(d.Directive)));
    if is_if(d) {
        let p = seq![32int, 40]; let q = q_cond(a, m);
        lemma_split(cs, n, w + p + q, seq![41int]); lemma_split(cs, n, w + p, q); lemma_split(cs, n, w, p);
        assert(p =~= seq![32int] + seq![40int]);
        let n1 = n + w.len();
        lemma_split(cs, n1, seq![32int], seq![40int]); lemma_char_at(cs, n1, 32); lemma_char_at(cs, n1 + 1, 40); 
        lemma_word(x, cs, n, ks, depth, d.Directive);
        lemma_gap(x, cs, n1, k1, depth);
        lemma_codes(); ax_rune(40); lemma_cat1(40);
        lemma_first(x, cs, n1 + 1, k1, depth, seq![40int]);
        let kp = k1.push((lit!("("), false));
        assert(kp.drop_last() =~= k1);
        assert(word_at(x, cs, n1 + 2, kp, depth));
        lemma_lex_cond(x, cs, n1 + 2, k1, depth, a, m);
        lemma_char_at(cs, n1 + 2 + q.len(), 41);
        lemma_t_cond_len(a, m);
        lemma_close(x, cs, n1 + 2 + q.len(), k1, depth, t_cond(a, m));
        assert(k1 + t_paren(t_cond(a, m)) =~= ks + t_head(d));
    } else {
        lemma_split(cs, n, w, q_args(a, m));
        lemma_word(x, cs, n, ks, depth, d.Directive);
        lemma_lex_args(x, cs, n + w.len(), k1, depth, a, m);
        assert(k1 + t_words(a, m) =~= ks + t_head(d));
    }
}
// where a statement ends: between words, or in a comment
pub open spec fn end_at(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int, com: bool) -> bool {
    if com { ks.len() > 0 && !ks.last().1 && at(x, cs, n, ks.drop_last(), depth, 2, ks.last().0) } else { at(x, cs, n, ks, depth, 0, sempty()) }
}
proof fn lemma_newline(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int, com: bool)
    requires no_ext(x), end_at(x, cs, n, ks, depth, com), n < cs.len(), cs[n] == rune_str(10)
    ensures at(x, cs, n + 1, ks, depth, 0, sempty())
{
    if com { assert(ks.drop_last().push(ks.last()) =~= ks); lemma_blank(x, cs, n, ks.drop_last(), depth, 2, ks.last().0, 10); }
    else { lemma_blank(x, cs, n, ks, depth, 0, sempty(), 10); }
}
proof fn lemma_margin(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int, c: int, k: int)
    requires no_ext(x), at(x, cs, n, ks, depth, 0, sempty()), c == 32 || c == 9, k >= 0, spells(cs, n, Seq::new(k as nat, |i: int| c))
    ensures at(x, cs, n + k, ks, depth, 0, sempty())
    decreases k
{
    if k > 0 {
        let s = Seq::new(k as nat, |i: int| c); let t = Seq::new((k - 1) as nat, |i: int| c);
        assert(s =~= t + seq![c]);
        lemma_split(cs, n, t, seq![c]); lemma_char_at(cs, n + k - 1, c);
        lemma_margin(x, cs, n, ks, depth, c, k - 1);
        lemma_blank(x, cs, n + k - 1, ks, depth, 0, sempty(), c);
    }
}
proof fn lemma_lex_indent(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int, o: BuildOptions, m: int)
    requires no_ext(x), at(x, cs, n, ks, depth, 0, sempty()), m >= 0, o.Indent > 0, spells(cs, n, q_indent(o, m))
    ensures at(x, cs, n + q_indent(o, m).len(), ks, depth, 0, sempty())
{
    lemma_mul(m, o.Indent);
    if o.Tabs { lemma_margin(x, cs, n, ks, depth, 9, m); } else { lemma_margin(x, cs, n, ks, depth, 32, m * o.Indent); }
}
proof fn lemma_lex_comment(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, depth: int, c: S)
    requires no_ext(x), at(x, cs, n, ks, depth, 0, sempty()), fine(c), spells(cs, n, seq![35int] + runes(c))
    ensures end_at(x, cs, n + 1 + runes(c).len(), ks.push((lit!("#") + c, false)), depth, true)
{
    lemma_split(cs, n, seq![35int], runes(c)); lemma_char_at(cs, n, 35);
    lemma_hash(x, cs, n, ks, depth);
    lemma_in_comment(x, cs, n + 1, ks, depth, lit!("#"), runes(c));
    let k2 = ks.push((lit!("#") + c, false));
    assert(k2.drop_last() =~= ks);
}
pub open spec fn is_com(s: Option<Directive>) -> bool { s is Some && is_comment(s->0) }
pub proof fn lemma_lex_stmt(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, s: Option<Directive>, depth: int, o: BuildOptions)
    requires no_ext(x), at(x, cs, n, ks, depth, 0, sempty()), fine_dir(s, o), o.Indent > 0, depth >= 0, spells(cs, n, q_stmt(s, depth, o))
    ensures end_at(x, cs, n + q_stmt(s, depth, o).len(), ks + t_stmt(s), depth, is_com(s))
    decreases s, 0nat
{
    let d = s->0;
    if is_comment(d) {
        lemma_lex_comment(x, cs, n, ks, depth, d.Comment->0);
        assert(ks.push((lit!("#") + d.Comment->0, false)) =~= ks + t_stmt(s));
    } else if !d.Block.nn {
        let h = q_head(d);
        lemma_split(cs, n, h, seq![59int]); lemma_char_at(cs, n + h.len(), 59);
        lemma_lex_head(x, cs, n, ks, depth, d);
        lemma_stop(x, cs, n + h.len(), ks + t_head(d), depth);
        assert((ks + t_head(d)).push((lit!(";"), false)) =~= ks + t_stmt(s));
    } else {
        let h = q_head(d); let b = d.Block.s; let m = b.len() as int;
        let q = q_body(b, m, false, depth + 1, d.Line, o);
        let op = seq![32int, 123]; let cl = seq![10int] + q_indent(o, depth) + seq![125int];
        lemma_q_block(d, depth, o); lemma_t_block(d);
        lemma_split(cs, n, h + op + q, cl); lemma_split(cs, n, h + op, q); lemma_split(cs, n, h, op);
        let n1 = n + h.len();
        assert(op =~= seq![32int] + seq![123int]);
        lemma_split(cs, n1, seq![32int], seq![123int]); lemma_char_at(cs, n1, 32); lemma_char_at(cs, n1 + 1, 123);
        let n2 = n1 + 2 + q.len();
        lemma_split(cs, n2, seq![10int] + q_indent(o, depth), seq![125int]); lemma_split(cs, n2, seq![10int], q_indent(o, depth)); lemma_char_at(cs, n2, 10);
        lemma_lex_head(x, cs, n, ks, depth, d);
        let k1 = ks + t_head(d);
        lemma_gap(x, cs, n1, k1, depth);
        lemma_brace(x, cs, n1 + 1, k1, depth, 123);
        let k2 = k1.push((lit!("{"), false));
        lemma_lex_list(x, cs, n1 + 2, k2, b, m, false, depth + 1, d.Line, o);
        let k3 = k2 + t_body(b, m);
        lemma_newline(x, cs, n2, k3, depth + 1, m > 0 && is_com(b[m - 1]));
        lemma_lex_indent(x, cs, n2 + 1, k3, depth + 1, o, depth);
        let n3 = n2 + 1 + q_indent(o, depth).len();
        lemma_char_at(cs, n3, 125);
        lemma_brace(x, cs, n3, k3, depth + 1, 125);
        assert(k3.push((lit!("}"), false)) =~= ks + t_stmt(s));
    }
}
pub proof fn lemma_lex_list(x: Mp<S, Opq>, cs: Seq<S>, n: int, ks: Seq<Tk>, b: Seq<Option<Directive>>, k: int, top: bool, depth: int, line: int, o: BuildOptions)
    requires no_ext(x), at(x, cs, n, ks, depth, 0, sempty()), fine_list(b, line, o), 0 <= k <= b.len(), o.Indent > 0, depth >= 0, spells(cs, n, q_body(b, k, top, depth, line, o))
    ensures end_at(x, cs, n + q_body(b, k, top, depth, line, o).len(), ks + t_body(b, k), depth, k > 0 && is_com(b[k - 1]))
    decreases b, k
{
    if k == 0 { reveal(q_body); reveal(t_body); assert(ks + t_body(b, k) =~= ks); }
    else {
        lemma_q_body(b, k - 1, top, depth, line, o); lemma_t_body(b, k - 1);
        assert(fine_dir(b[k - 1], o)); assert(!joined(b, k - 1, line, o));
        let p = q_body(b, k - 1, top, depth, line, o); let e = q_piece(b, k - 1, top, depth, line, o); let d = b[k - 1]->0;
        lemma_split(cs, n, p, e);
        lemma_lex_list(x, cs, n, ks, b, k - 1, top, depth, line, o);
        let n1 = n + p.len(); let k1 = ks + t_body(b, k - 1);
        let com = k - 1 > 0 && is_com(b[k - 2]);
        if same_line(b, k - 1, line, o) {
            let c = runes(d.Comment->0);
            assert(e =~= seq![32int] + (seq![35int] + c));
            lemma_split(cs, n1, seq![32int], seq![35int] + c); lemma_char_at(cs, n1, 32);
            lemma_blank(x, cs, n1, k1, depth, 0, sempty(), 32);
            lemma_lex_comment(x, cs, n1 + 1, k1, depth, d.Comment->0);
            assert(k1.push((lit!("#") + d.Comment->0, false)) =~= ks + t_body(b, k));
        } else {
            let nl = if k == 1 && top { Seq::<int>::empty() } else { seq![10int] };
            let i = q_indent(o, depth); let q = q_stmt(b[k - 1], depth, o);
            lemma_split(cs, n1, nl + i, q); lemma_split(cs, n1, nl, i);
            let n2 = n1 + nl.len();
            if !(k == 1 && top) { lemma_char_at(cs, n1, 10); lemma_newline(x, cs, n1, k1, depth, com); }
            lemma_lex_indent(x, cs, n2, k1, depth, o, depth);
            lemma_lex_stmt(x, cs, n2 + i.len(), k1, b[k - 1], depth, o);
            assert(k1 + t_stmt(b[k - 1]) =~= ks + t_body(b, k));
        }
    }
}
pub proof fn lemma_built_text(rd: Opq, c: Config, o: BuildOptions, x: Mp<S, Opq>)
    requires no_ext(x), fine_list(c.Parsed.s, 0, o), no_builders(o), !o.Header, o.Indent > 0, content(rd) == built_body(c, o)
    ensures listed(lexed(x, chars(rd)), t_body(c.Parsed.s, c.Parsed.s.len() as int))
{
    let b = c.Parsed.s; let n = b.len() as int;
    let q = q_body(b, n, true, 0, 0, o);
    lemma_q_list(Seq::empty(), b, n, true, 0, 0, o); lemma_t_list(b, n, true, 0, 0, o);
    assert(Seq::<int>::empty() + q =~= q); assert(cat(Seq::<int>::empty()) == sempty());
    assert(chop(cat(q)) == cat(q)) by {
        if q.len() > 0 {
            if n == 0 { reveal(q_body); }
            let p = q.drop_last(); let r = q.last();
            assert(q =~= p + seq![r]); lemma_qcat(p, seq![r]); lemma_cat1(r); ax_rune(r);
            assert(printable(q[q.len() - 1]) || q[q.len() - 1] == 9 || q[q.len() - 1] == 10);
            assert(rune_str(r).len() > 0 && rune_str(r).last() != 10u8) by {
                if ascii(r) { assert(rune_str(r)[0] == r as u8); assert(r >= 32); assert(r as u8 != 10u8); } else { let k = rune_str(r).len() - 1; assert(rune_str(r)[k] >= 128u8); }
            }
            assert(cat(q).last() == rune_str(r).last());
        }
    }
    ax_read(rd, q);
    let cs = chars(rd);
    assert(spells(cs, 0, q)) by { assert forall|j: int| 0 <= j < q.len() implies cs[0 + j] == rune_str(#[trigger] q[j]) by {} }
    lemma_at(x, cs, lx0(), 0, Seq::empty(), 0, 0, sempty());
    lemma_lex_list(x, cs, 0, Seq::empty(), b, n, true, 0, 0, o);
    let t = t_body(b, n);
    assert(Seq::<Tk>::empty() + t =~= t);
    let com = n > 0 && is_com(b[n - 1]);
    if com {
        let l = lemma_get(x, cs, q.len() as int, t.drop_last(), 0, 2, t.last().0);
        lemma_lex_end(x, cs, l);
        lemma_listed(l.out, t.drop_last(), a_token(cs, l, false));
        assert(t.drop_last().push(t.last()) =~= t);
    } else {
        let l = lemma_get(x, cs, q.len() as int, t, 0, 0, sempty());
        lemma_lex_end(x, cs, l);
    }
}
// The text built for a list of directives is read as exactly their tokens.
pub proof fn built_text_reads_back(rd: Opq, c: Config, o: BuildOptions, x: Mp<S, Opq>)
    requires no_ext(x), fine_list(c.Parsed.s, 0, o), no_builders(o), !o.Header, o.Indent > 0, content(rd) == built_body(c, o)
    ensures listed(lexed(x, chars(rd)), t_body(c.Parsed.s, c.Parsed.s.len() as int))
{
    lemma_built_text(rd, c, o, x);
}
