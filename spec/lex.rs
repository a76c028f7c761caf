// ---- the lexer: characters, states and tokens ----
// The input is cut into characters (chunks) cs; a position i is the number of characters read so far.

pub open spec fn is_space(s: S) -> bool { trim_space(s).len() == 0 }
pub open spec fn is_eol(s: S) -> bool { has_suffix(s, lit!("\n")) }
// line reached after reading n characters: 1 plus the line feeds among them
pub open spec fn lno(cs: Seq<S>, n: int) -> int decreases n {
    if n <= 0 || n > cs.len() { 1 } else { lno(cs, n - 1) + (if is_eol(cs[n - 1]) { 1int } else { 0 }) }
}

// external lexers: tokens produced and characters read, for a name and the input from position i on
pub uninterp spec fn ext_toks(l: Opq, name: S, cs: Seq<S>, i: int) -> Seq<NgxToken>;
pub uninterp spec fn ext_read(l: Opq, name: S, cs: Seq<S>, i: int) -> int;

// modes: 0 between tokens, 1 in a word, 2 in a comment, 3 in ${...}, 4 in a quoted string
pub struct Lx {
    pub out: Seq<NgxToken>, // tokens so far
    pub i: int,             // characters read
    pub mode: int,
    pub tok: S,             // text of the token being read
    pub q: S,               // delimiter of the quoted string being read
    pub esc: bool,          // a backslash waits for the character it escapes
    pub term: bool,         // nothing to terminate: no word since the last { } ; (or the start)
    pub depth: int,         // open blocks
    pub dir: bool,          // at the start of a statement or line: the next word may name a directive
    pub start: int,         // line reached with the first character of the token (or run)
    pub done: bool,         // an error ended the stream
}
pub open spec fn lx0() -> Lx {
    Lx { out: Seq::empty(), i: 0, mode: 0, tok: sempty(), q: sempty(), esc: false, term: true, depth: 0, dir: true, start: 1, done: false }
}
pub open spec fn a_token(cs: Seq<S>, l: Lx, quoted: bool) -> NgxToken {
    NgxToken { Value: l.tok, Line: l.start, IsQuoted: quoted, Error: GoErr::Nil }
}
pub open spec fn an_error(cs: Seq<S>, l: Lx) -> NgxToken {
    NgxToken { Value: l.tok, Line: l.start, IsQuoted: false, Error: GoErr::PE(Box::new(ParseError {
        What: (), File: Some(lit!("lexer")), Line: Some(lno(cs, l.i)), Statement: (), BlockCtx: sempty(), originalErr: GoErr::Nil })) }
}
pub open spec fn emit_tok(cs: Seq<S>, l: Lx, quoted: bool) -> Lx { Lx { out: l.out.push(a_token(cs, l, quoted)), tok: sempty(), mode: 0, ..l } }
pub open spec fn fail_tok(cs: Seq<S>, l: Lx) -> Lx { Lx { out: l.out.push(an_error(cs, l)), tok: sempty(), done: true, ..l } }

pub open spec fn is_special(la: S) -> bool { la == lit!("{") || la == lit!("}") || la == lit!(";") }
pub open spec fn is_quote(la: S) -> bool { la == lit!("\"") || la == lit!("'") }

// { } and ;
pub open spec fn on_special(cs: Seq<S>, l0: Lx, la: S) -> Lx {
    let l = if l0.tok.len() > 0 { emit_tok(cs, l0, false) } else { l0 };
    if l.term && la != lit!("}") { fail_tok(cs, l) }
    else {
        let d = if la == lit!("{") { l.depth + 1 } else if la == lit!("}") { l.depth - 1 } else { l.depth };
        if d < 0 { fail_tok(cs, l) }
        else { Lx { dir: true, ..emit_tok(cs, Lx { term: true, depth: d, tok: la, ..l }, false) } }
    }
}
// a character in a word
pub open spec fn on_word(cs: Seq<S>, l: Lx, la: S) -> Lx {
    if is_space(la) { Lx { dir: false, ..emit_tok(cs, l, false) } }
    else if l.tok.len() > 0 && has_suffix(l.tok, lit!("$")) && la == lit!("{") { Lx { dir: false, tok: l.tok + la, mode: 3, term: false, ..l } }
    else if is_quote(la) && l.tok.len() == 0 { Lx { q: la, mode: 4, start: lno(cs, l.i), term: false, ..l } }
    else if is_special(la) { on_special(cs, l, la) }
    else { Lx { term: false, tok: l.tok + la, ..l } }
}
// the first character of a token
pub open spec fn on_first(cs: Seq<S>, l: Lx, la: S) -> Lx {
    if la == lit!("#") { Lx { mode: 2, tok: l.tok + la, start: lno(cs, l.i), dir: false, ..l } } else { on_word(cs, Lx { mode: 1, ..l }, la) }
}
pub open spec fn on_plain(cs: Seq<S>, l: Lx, la: S) -> Lx {
    if l.mode == 0 { if is_space(la) { l } else { on_first(cs, Lx { start: lno(cs, l.i), ..l }, la) } }
    else if l.mode == 1 { on_word(cs, l, la) }
    else if l.mode == 2 { if is_eol(la) { emit_tok(cs, l, false) } else { Lx { tok: l.tok + la, ..l } } }
    else if l.mode == 3 { Lx { tok: l.tok + la, mode: if has_suffix(l.tok + la, lit!("}")) || is_space(la) { 1 } else { 3 }, ..l } }
    else { if la == l.q { emit_tok(cs, l, true) } else { Lx { tok: l.tok + (if la == lit!("\\") + l.q { l.q } else { la }), ..l } } }
}
// a word that is complete with this character
pub open spec fn word_ends(l: Lx, la: S) -> bool {
    l.tok.len() > 0 && (l.mode == 1 && (is_space(la) || is_special(la)) || l.mode == 4 && la == l.q)
}
pub open spec fn ext_lexer(x: Mp<S, Opq>, name: S) -> Option<Opq> { if x.m.contains_key(name) { Some(x.m[name]) } else { None } }
pub open spec fn read_by(x: Opq, name: S, cs: Seq<S>, i: int) -> int {
    let k = ext_read(x, name, cs, i); if 0 <= k && i + k <= cs.len() { k } else { 0 }
}
// one character (with the backslash before it, if any)
pub open spec fn on_char(x: Mp<S, Opq>, cs: Seq<S>, l: Lx, la: S) -> Lx {
    if l.dir && word_ends(l, la) && ext_lexer(x, l.tok) is Some {
        let e = ext_lexer(x, l.tok)->0;
        let m = emit_tok(cs, l, l.mode == 4);
        let n = Lx { out: m.out + ext_toks(e, l.tok, cs, l.i), i: l.i + read_by(e, l.tok, cs, l.i), ..m };
        if l.mode == 4 { n } else { on_plain(cs, n, la) }
    } else { on_plain(cs, l, la) }
}
pub open spec fn lex_step(x: Mp<S, Opq>, cs: Seq<S>, l0: Lx) -> Lx {
    let c = cs[l0.i];
    let l = Lx { i: l0.i + 1, dir: l0.dir || is_eol(c), ..l0 };
    if c == lit!("\r") { l }
    else if c == lit!("\\") && !l.esc { Lx { esc: true, ..l } }
    else { on_char(x, cs, Lx { esc: false, ..l }, if l.esc { lit!("\\") + c } else { c }) }
}
pub open spec fn lex_end(cs: Seq<S>, l0: Lx) -> Seq<NgxToken> {
    let l = if l0.tok.len() > 0 { emit_tok(cs, l0, l0.mode == 4) } else { l0 };
    if l.depth > 0 { fail_tok(cs, l).out } else { l.out }
}
#[verifier::opaque]
pub open spec fn lex_run(x: Mp<S, Opq>, cs: Seq<S>, l: Lx) -> Seq<NgxToken>
    decreases cs.len() - l.i
{
    if l.done { l.out }
    else if l.i < 0 || l.i >= cs.len() { lex_end(cs, l) }
    else { let n = lex_step(x, cs, l); if n.i <= l.i { l.out } else { lex_run(x, cs, n) } }
}
pub open spec fn lexed(x: Mp<S, Opq>, cs: Seq<S>) -> Seq<NgxToken> { lex_run(x, cs, lx0()) }

pub open spec fn chars(r: Opq) -> Seq<S> { split_by(r, fnc!("bufio.ScanRunes")) }

pub open spec fn lx(out: Seq<NgxToken>, i: int, mode: int, tok: S, q: S, esc: bool, term: bool, depth: int, dir: bool, start: int) -> Lx {
    Lx { out: out, i: i, mode: mode, tok: tok, q: q, esc: esc, term: term, depth: depth, dir: dir, start: start, done: false }
}
// a character: one byte, or several bytes of which none is ASCII
pub open spec fn is_char(c: S) -> bool { c.len() > 0 && (c.len() == 1 || forall|j: int| 0 <= j < c.len() ==> #[trigger] c[j] >= 128u8) }
// assumed: bufio.ScanRunes cuts the input into UTF-8 characters (invalid bytes become U+FFFD)
#[verifier::external_body]
pub proof fn ax_chars(r: Opq)
    ensures forall|i: int| 0 <= i < chars(r).len() ==> is_char(#[trigger] chars(r)[i])
{ }
pub proof fn lemma_char(c: S)
    requires is_char(c)
    ensures c != lit!("\\\r"), lit!("\\") + c == lit!("\\\r") ==> c == lit!("\r"), lit!("\\") + c != lit!("\\"), lit!("\\") + c != lit!("\r")
{
    lits_ax();
    let e = lit!("\\") + c;
    assert(e.len() == c.len() + 1 && e[0] == 92u8);
    if e == lit!("\\\r") { assert(c[0] == e[1]); assert(c =~= lit!("\r")); }
    if c == lit!("\\\r") { assert(c[0] == 92u8); }
}
pub proof fn lemma_lex_step(x: Mp<S, Opq>, cs: Seq<S>, l: Lx)
    requires !l.done, 0 <= l.i < cs.len()
    ensures lex_run(x, cs, l) == lex_run(x, cs, lex_step(x, cs, l)), lex_step(x, cs, l).i > l.i
{ reveal(lex_run); }
pub proof fn lemma_lex_end(x: Mp<S, Opq>, cs: Seq<S>, l: Lx)
    ensures l.done ==> lex_run(x, cs, l) == l.out, !l.done && !(0 <= l.i < cs.len()) ==> lex_run(x, cs, l) == lex_end(cs, l)
{ reveal(lex_run); }
// registrations: the last lexer registered for a name wins
pub open spec fn reg_lex_names(m: Map<S, Opq>, l: Opq, names: Seq<S>) -> Map<S, Opq> decreases names.len() {
    if names.len() == 0 { m } else { reg_lex_names(m, l, names.drop_last()).insert(names.last(), l) }
}
pub open spec fn reg_lexers(m: Mp<S, Opq>, l: Seq<registerLexer>) -> Mp<S, Opq> decreases l.len() {
    if l.len() == 0 { m } else { Mp { m: reg_lex_names(mp_live(reg_lexers(m, l.drop_last())), l.last().l, l.last().stringTokens.s), nn: true } }
}
pub proof fn lemma_lexers(m: Mp<S, Opq>, l: Seq<registerLexer>, k: int)
    requires 0 <= k < l.len()
    ensures reg_lexers(reg_lexers(m, l.subrange(0, k)), seq![l[k]]) == reg_lexers(m, l.subrange(0, k + 1))
{
    assert(l.subrange(0, k + 1).drop_last() =~= l.subrange(0, k));
    let a = reg_lexers(m, l.subrange(0, k));
    assert(seq![l[k]].drop_last() =~= Seq::empty());
    assert(reg_lexers(a, seq![l[k]].drop_last()) == a);
}
