// ---- Lua blocks ----
pub open spec fn set_by() -> S { lit!("set_by_lua_block") }
// text of the characters a..k
pub open spec fn span(cs: Seq<S>, a: int, k: int) -> S decreases k - a { if k <= a { sempty() } else { span(cs, a, k - 1) + cs[k - 1] } }
pub struct LuaSt { pub depth: int, pub inq: bool, pub q: S }
// braces open and Lua quote after reading a..k, where a follows the opening brace
pub open spec fn lua_st(cs: Seq<S>, a: int, k: int) -> LuaSt decreases k - a {
    if k <= a { LuaSt { depth: 1, inq: false, q: sempty() } } else {
        let p = lua_st(cs, a, k - 1); let c = cs[k - 1];
        if c == lit!("{") && !p.inq { LuaSt { depth: p.depth + 1, ..p } }
        else if c == lit!("}") && !p.inq { LuaSt { depth: p.depth - 1, ..p } }
        else if is_quote(c) { if !p.inq { LuaSt { inq: true, q: c, ..p } } else if c == p.q { LuaSt { inq: false, ..p } } else { p } }
        else { p }
    }
}
// position of the closing brace, from k on (-1: none)
#[verifier::opaque]
pub open spec fn lua_close(cs: Seq<S>, a: int, k: int) -> int decreases cs.len() - k {
    if k < 0 || k >= cs.len() { -1 } else if lua_st(cs, a, k + 1).depth == 0 { k } else { lua_close(cs, a, k + 1) }
}
// first position from i on that is (not) blank, or the end
#[verifier::opaque]
pub open spec fn next_word(cs: Seq<S>, i: int) -> int decreases cs.len() - i {
    if i < 0 || i >= cs.len() || !is_space(cs[i]) { i } else { next_word(cs, i + 1) }
}
#[verifier::opaque]
pub open spec fn word_end(cs: Seq<S>, i: int) -> int decreases cs.len() - i {
    if i < 0 || i >= cs.len() || is_space(cs[i]) { i } else { word_end(cs, i + 1) }
}
// The block: from position i, blanks, an opening brace, the body, the closing brace.
pub open spec fn lua_block(out: Seq<NgxToken>, cs: Seq<S>, i: int) -> Seq<NgxToken> {
    let p = next_word(cs, i);
    if p >= cs.len() { out }
    else if cs[p] != lit!("{") { out.push(NgxToken { Value: sempty(), Line: 0, IsQuoted: false, Error: GoErr::PE(Box::new(ParseError {
        What: (), File: Some(lit!("lexer")), Line: Some(lno(cs, p + 1)), Statement: (), BlockCtx: sempty(), originalErr: GoErr::Nil })) }) }
    else {
        let e = lua_close(cs, p + 1, p + 1);
        if e < 0 { out } else {
            out.push(NgxToken { Value: span(cs, p + 1, e), Line: lno(cs, e + 1), IsQuoted: true, Error: GoErr::Nil })
                .push(NgxToken { Value: lit!(";"), Line: lno(cs, e + 1), IsQuoted: false, Error: GoErr::Nil })
        }
    }
}
pub open spec fn lua_block_end(cs: Seq<S>, i: int) -> int {
    let p = next_word(cs, i);
    if p >= cs.len() { cs.len() as int } else if cs[p] != lit!("{") { p + 1 } else { let e = lua_close(cs, p + 1, p + 1); if e < 0 { cs.len() as int } else { e + 1 } }
}
// set_by_lua_block first has a variable
pub open spec fn lua_toks(name: S, cs: Seq<S>, i: int) -> Seq<NgxToken> {
    if name == set_by() {
        let b = next_word(cs, i); let e = word_end(cs, b);
        if e >= cs.len() { Seq::empty() }
        else { lua_block(seq![NgxToken { Value: span(cs, b, e), Line: lno(cs, e + 1), IsQuoted: false, Error: GoErr::Nil }], cs, e + 1) }
    } else { lua_block(Seq::empty(), cs, i) }
}
pub open spec fn lua_end(name: S, cs: Seq<S>, i: int) -> int {
    if name == set_by() {
        let e = word_end(cs, next_word(cs, i));
        if e >= cs.len() { cs.len() as int } else { lua_block_end(cs, e + 1) }
    } else { lua_block_end(cs, i) }
}
pub proof fn lemma_next(cs: Seq<S>, i: int)
    requires 0 <= i <= cs.len()
    ensures i <= next_word(cs, i) <= cs.len(), i <= word_end(cs, i) <= cs.len(),
        i < cs.len() ==> next_word(cs, i) == (if is_space(cs[i]) { next_word(cs, i + 1) } else { i }) && word_end(cs, i) == (if is_space(cs[i]) { i } else { word_end(cs, i + 1) }),
        i == cs.len() ==> next_word(cs, i) == i && word_end(cs, i) == i
    decreases cs.len() - i
{ reveal(next_word); reveal(word_end); if i < cs.len() { lemma_next(cs, i + 1); } }
pub proof fn lemma_close(cs: Seq<S>, a: int, k: int)
    requires 0 <= k <= cs.len()
    ensures k < cs.len() ==> lua_close(cs, a, k) == (if lua_st(cs, a, k + 1).depth == 0 { k } else { lua_close(cs, a, k + 1) }), k == cs.len() ==> lua_close(cs, a, k) == -1
{ reveal(lua_close); }
pub open spec fn lua_names() -> Seq<S> {
    seq![lit!("init_by_lua_block"), lit!("init_worker_by_lua_block"), lit!("exit_worker_by_lua_block"), lit!("set_by_lua_block"), lit!("content_by_lua_block"),
        lit!("server_rewrite_by_lua_block"), lit!("rewrite_by_lua_block"), lit!("access_by_lua_block"), lit!("header_filter_by_lua_block"), lit!("body_filter_by_lua_block"),
        lit!("log_by_lua_block"), lit!("balancer_by_lua_block"), lit!("ssl_client_hello_by_lua_block"), lit!("ssl_certificate_by_lua_block"),
        lit!("ssl_session_fetch_by_lua_block"), lit!("ssl_session_store_by_lua_block")]
}
// the directive as written back
pub open spec fn lua_built(d: Directive) -> S {
    if d.Directive == set_by() { if d.Args.s.len() < 2 { d.Directive } else { d.Directive + lit!(" ") + d.Args.s[0] + lit!(" {") + d.Args.s[1] + lit!("}") } }
    else if d.Args.s.len() < 1 { d.Directive } else { d.Directive + lit!(" {") + d.Args.s[0] + lit!("}") }
}
