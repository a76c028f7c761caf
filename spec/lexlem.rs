// ---- what the token stream guarantees (without external lexers) ----
pub open spec fn delta(t: NgxToken) -> int {
    if t.IsQuoted || !(t.Error is Nil) { 0 } else if t.Value == lit!("{") { 1 } else if t.Value == lit!("}") { -1 } else { 0 }
}
pub open spec fn bal(s: Seq<NgxToken>) -> int decreases s.len() { if s.len() == 0 { 0 } else { bal(s.drop_last()) + delta(s.last()) } }
// balanced: no prefix closes more than it opened
pub open spec fn never_below(s: Seq<NgxToken>) -> bool decreases s.len() { s.len() == 0 || bal(s) >= 0 && never_below(s.drop_last()) }
pub open spec fn no_error(s: Seq<NgxToken>) -> bool decreases s.len() { s.len() == 0 || s.last().Error is Nil && no_error(s.drop_last()) }
// line numbers never decrease, and none exceeds m
pub open spec fn rising(s: Seq<NgxToken>, m: int) -> bool decreases s.len() { s.len() == 0 || 1 <= s.last().Line <= m && rising(s.drop_last(), s.last().Line) }
pub open spec fn starts_ok(tok: S) -> bool { tok.len() > 0 ==> tok[0] != 123u8 && tok[0] != 125u8 }

pub open spec fn all_chars(cs: Seq<S>) -> bool { forall|i: int| 0 <= i < cs.len() ==> is_char(#[trigger] cs[i]) }
pub open spec fn lx_inv(cs: Seq<S>, l: Lx) -> bool {
    &&& 0 <= l.i <= cs.len() && l.depth >= 0
    &&& !l.done ==> no_error(l.out) && bal(l.out) == l.depth && never_below(l.out) && rising(l.out, l.start) && 1 <= l.start <= lno(cs, l.i)
    &&& l.done ==> l.out.len() > 0 && l.out.last().Error is PE && no_error(l.out.drop_last()) && never_below(l.out.drop_last()) && rising(l.out, lno(cs, l.i))
        && l.out.last().Error->PE_0.Line == Some(lno(cs, l.i))
    &&& l.mode != 4 ==> starts_ok(l.tok)
}
proof fn lemma_emit(cs: Seq<S>, l: Lx, quoted: bool)
    requires lx_inv(cs, l), !l.done, quoted || l.mode != 4
    ensures lx_inv(cs, emit_tok(cs, l, quoted))
{
    lits_ax();
    let n = emit_tok(cs, l, quoted);
    assert(n.out.drop_last() =~= l.out);
    assert(n.out.last() == a_token(cs, l, quoted));
    if !quoted && l.tok.len() > 0 { assert(l.tok != lit!("{")) by { if l.tok == lit!("{") { assert(l.tok[0] == 123u8); } }
        assert(l.tok != lit!("}")) by { if l.tok == lit!("}") { assert(l.tok[0] == 125u8); } } }
}
proof fn lemma_fail(cs: Seq<S>, l: Lx)
    requires lx_inv(cs, l), !l.done
    ensures lx_inv(cs, fail_tok(cs, l))
{
    let n = fail_tok(cs, l);
    assert(n.out.drop_last() =~= l.out);
    assert(n.out.last() == an_error(cs, l));
}
proof fn lemma_special(cs: Seq<S>, l0: Lx, la: S)
    requires lx_inv(cs, l0), !l0.done, l0.mode == 1, is_special(la)
    ensures lx_inv(cs, on_special(cs, l0, la))
{
    lits_ax();
    let l = if l0.tok.len() > 0 { emit_tok(cs, l0, false) } else { l0 };
    if l0.tok.len() > 0 { lemma_emit(cs, l0, false); }
    if l.term && la != lit!("}") { lemma_fail(cs, l); }
    else {
        let d = if la == lit!("{") { l.depth + 1 } else if la == lit!("}") { l.depth - 1 } else { l.depth };
        if d < 0 { lemma_fail(cs, l); }
        else {
            let m = Lx { term: true, depth: d, tok: la, ..l };
            let n = emit_tok(cs, m, false);
            assert(n.out.drop_last() =~= l.out);
            assert(n.out.last() == a_token(cs, m, false));
        }
    }
}
pub open spec fn la_ok(la: S) -> bool { la.len() > 0 && (is_char(la) || la[0] == 92u8) }
proof fn lemma_word(cs: Seq<S>, l: Lx, la: S)
    requires lx_inv(cs, l), !l.done, l.mode == 1, la_ok(la)
    ensures lx_inv(cs, on_word(cs, l, la))
{
    lits_ax();
    if is_space(la) { lemma_emit(cs, l, false); }
    else if is_special(la) { lemma_special(cs, l, la); }
    if l.tok.len() > 0 { assert((l.tok + la)[0] == l.tok[0]); }
    else {
        assert(l.tok + la =~= la);
        if la.len() == 1 && la[0] == 123u8 { assert(la =~= lit!("{")); }
        if la.len() == 1 && la[0] == 125u8 { assert(la =~= lit!("}")); }
    }
}
proof fn lemma_plain(cs: Seq<S>, l: Lx, la: S)
    requires lx_inv(cs, l), !l.done, la_ok(la), 0 <= l.mode <= 4, l.mode == 0 ==> l.tok.len() == 0, l.mode == 3 || l.mode == 2 ==> l.tok.len() > 0
    ensures lx_inv(cs, on_plain(cs, l, la))
{
    lits_ax();
    if l.mode == 0 && !is_space(la) {
        let m = Lx { start: lno(cs, l.i), ..l };
        lemma_rising(l.out, l.start, lno(cs, l.i));
        if la == lit!("#") { assert(m.tok + la =~= la); } else { lemma_word(cs, Lx { mode: 1, ..m }, la); }
    } else if l.mode == 1 { lemma_word(cs, l, la); }
    else if l.mode == 2 || l.mode == 3 { if is_eol(la) && l.mode == 2 { lemma_emit(cs, l, false); } else { assert((l.tok + la)[0] == l.tok[0]); } }
    else if l.mode == 4 && la == l.q { lemma_emit(cs, l, true); }
}
pub proof fn lemma_rising(s: Seq<NgxToken>, m: int, n: int)
    requires rising(s, m), m <= n
    ensures rising(s, n)
{ }
pub proof fn lemma_lno(cs: Seq<S>, n: int)
    requires 0 <= n < cs.len()
    ensures lno(cs, n) <= lno(cs, n + 1), lno(cs, n) >= 1
    decreases n
{ if n > 0 { lemma_lno(cs, n - 1); } }
pub open spec fn lx_modes(l: Lx) -> bool { 0 <= l.mode <= 4 && (l.mode == 0 ==> l.tok.len() == 0) && (l.mode == 3 || l.mode == 2 ==> l.tok.len() > 0) }
proof fn lemma_step(x: Mp<S, Opq>, cs: Seq<S>, l0: Lx)
    requires lx_inv(cs, l0), lx_modes(l0), !l0.done, l0.i < cs.len(), all_chars(cs), x.m == Map::<S, Opq>::empty()
    ensures lx_inv(cs, lex_step(x, cs, l0)), lex_step(x, cs, l0).done || lx_modes(lex_step(x, cs, l0))
{
    lits_ax();
    let c = cs[l0.i];
    let l = Lx { i: l0.i + 1, dir: l0.dir || is_eol(c), ..l0 };
    lemma_lno(cs, l0.i);
    let la = if l.esc { lit!("\\") + c } else { c };
    assert(l.esc ==> la[0] == 92u8);
    lemma_plain(cs, Lx { esc: false, ..l }, la);
}
proof fn lemma_run(x: Mp<S, Opq>, cs: Seq<S>, l: Lx)
    requires lx_inv(cs, l), l.done || lx_modes(l), all_chars(cs), x.m == Map::<S, Opq>::empty()
    ensures good_stream(cs, lex_run(x, cs, l))
    decreases cs.len() - l.i
{
    reveal(lex_run);
    if l.done { lemma_lno_le(cs, l.i, cs.len() as int); lemma_rising(l.out, lno(cs, l.i), lno(cs, cs.len() as int)); }
    else if l.i >= cs.len() {
        let m = if l.tok.len() > 0 { emit_tok(cs, l, l.mode == 4) } else { l };
        if l.tok.len() > 0 { lemma_emit(cs, l, l.mode == 4); }
        if m.depth > 0 { lemma_fail(cs, m); }
        else { lemma_rising(m.out, m.start, lno(cs, cs.len() as int)); }
    } else { lemma_step(x, cs, l); lemma_lex_step(x, cs, l); lemma_run(x, cs, lex_step(x, cs, l)); }
}
proof fn lemma_lno_le(cs: Seq<S>, a: int, b: int)
    requires 0 <= a <= b <= cs.len()
    ensures lno(cs, a) <= lno(cs, b)
    decreases b - a
{ if a < b { lemma_lno_le(cs, a, b - 1); lemma_lno(cs, b - 1); } }

// an error is last, the only one, and carries a line; a stream without error is balanced; lines never decrease
pub open spec fn good_stream(cs: Seq<S>, s: Seq<NgxToken>) -> bool {
    &&& s.len() > 0 ==> no_error(s.drop_last()) && never_below(s.drop_last())
    &&& no_error(s) ==> bal(s) == 0 && never_below(s)
    &&& rising(s, lno(cs, cs.len() as int))
}
pub proof fn lexer_guarantees(cs: Seq<S>)
    requires all_chars(cs)
    ensures good_stream(cs, lexed(Mp { m: Map::empty(), nn: false }, cs))
{ lemma_run(Mp { m: Map::empty(), nn: false }, cs, lx0()); }
