// ---- strings of printable characters without backslashes ----
pub uninterp spec fn printable(r: int) -> bool;   // unicode.IsPrint
pub uninterp spec fn content(r: Opq) -> S;        // everything a reader delivers
pub open spec fn simple(rs: Seq<int>) -> bool { forall|i: int| 0 <= i < rs.len() ==> #[trigger] printable(rs[i]) && rs[i] != 92 }
// printable characters, tabs and line feeds
pub open spec fn textual(rs: Seq<int>) -> bool { forall|i: int| 0 <= i < rs.len() ==> #[trigger] printable(rs[i]) || rs[i] == 9 || rs[i] == 10 }
pub open spec fn readable(rs: Seq<int>) -> bool { forall|i: int| 0 <= i < rs.len() ==> #[trigger] printable(rs[i]) }
pub open spec fn cat(rs: Seq<int>) -> S decreases rs.len() { if rs.len() == 0 { sempty() } else { rune_str(rs[0]) + cat(rs.subrange(1, rs.len() as int)) } }
pub open spec fn ascii(r: int) -> bool { 0 <= r < 128 }

// assumed facts about UTF-8 and unicode
#[verifier::external_body]
pub proof fn ax_rune(r: int)
    ensures
        ascii(r) ==> rune_str(r) == seq![r as u8] && (uni_space(r) <==> 9 <= r <= 13 || r == 32),
        ascii(r) ==> (is_space(rune_str(r)) <==> uni_space(r)),
        printable(r) ==> r >= 32 && r != 127,
        32 <= r < 127 ==> printable(r),
        r >= 128 ==> rune_str(r).len() > 1 && forall|j: int| 0 <= j < rune_str(r).len() ==> #[trigger] rune_str(r)[j] >= 128u8,
        printable(r) ==> (is_space(rune_str(r)) <==> uni_space(r)),
{ }
#[verifier::external_body]
pub proof fn ax_decode(rs: Seq<int>)
    requires readable(rs)
    ensures runes(cat(rs)) == rs,
        rs.len() > 0 ==> rune_at(cat(rs)) == rs[0] && cat(rs).subrange(rune_len(cat(rs)), cat(rs).len() as int) == cat(rs.subrange(1, rs.len() as int)),
{ }
#[verifier::external_body]
pub proof fn ax_read(r: Opq, rs: Seq<int>)
    requires textual(rs), content(r) == cat(rs)
    ensures chars(r) == Seq::new(rs.len(), |i: int| rune_str(rs[i]))
{ }
// %q of printable text without backslashes: double quotes around it, a backslash before each inner one
#[verifier::external_body]
pub proof fn ax_quoted(rs: Seq<int>)
    requires simple(rs)
    ensures go_quote(cat(rs)) == lit!("\"") + cat(bs(rs, 34)) + lit!("\"")
{ }
// a backslash before every q
pub open spec fn bs(rs: Seq<int>, q: int) -> Seq<int> decreases rs.len() {
    if rs.len() == 0 { Seq::empty() } else { (if rs[0] == q { seq![92int, q] } else { seq![rs[0]] }) + bs(rs.subrange(1, rs.len() as int), q) }
}

pub proof fn lemma_plain_tail(rs: Seq<int>)
    requires simple(rs)
    ensures readable(rs), rs.len() > 0 ==> simple(rs.subrange(1, rs.len() as int)) && readable(rs.subrange(1, rs.len() as int))
{
    assert forall|i: int| 0 <= i < rs.len() implies #[trigger] printable(rs[i]) by {}
    if rs.len() > 0 {
        let r = rs.subrange(1, rs.len() as int);
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] printable(r[i]) && r[i] != 92 by { assert(r[i] == rs[i + 1]); }
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] printable(r[i]) by {}
    }
}
proof fn lemma_qcat(a: Seq<int>, b: Seq<int>)
    ensures cat(a + b) == cat(a) + cat(b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(cat(a) + cat(b) =~= cat(b)); }
    else {
        let t = a.subrange(1, a.len() as int);
        assert((a + b).subrange(1, (a + b).len() as int) =~= t + b);
        lemma_qcat(t, b);
        assert(rune_str(a[0]) + (cat(t) + cat(b)) =~= (rune_str(a[0]) + cat(t)) + cat(b));
    }
}
proof fn lemma_cat1(r: int)
    ensures cat(seq![r]) == rune_str(r)
{ assert(seq![r].subrange(1, 1) =~= Seq::<int>::empty()); assert(cat(seq![r]) == rune_str(r) + cat(seq![r].subrange(1, 1))); assert(cat(seq![r]) =~= rune_str(r)); }
pub proof fn lemma_cat_len(rs: Seq<int>)
    requires readable(rs)
    ensures rs.len() > 0 ==> cat(rs).len() > 0, rs.len() == 0 ==> cat(rs).len() == 0
{ if rs.len() > 0 { ax_rune(rs[0]); } }

// ---- replacing ----
pub open spec fn avoids(p: S, b: u8) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] != b }
proof fn lemma_rskip(p: S, s: S, a: S, b: S)
    requires a.len() > 0, avoids(p, a[0])
    ensures replace_all(p + s, a, b) == p + replace_all(s, a, b)
    decreases p.len()
{
    if p.len() == 0 { assert(p + s =~= s); assert(p + replace_all(s, a, b) =~= replace_all(s, a, b)); }
    else if (p + s).len() < a.len() { }
    else {
        let t = p.subrange(1, p.len() as int);
        assert((p + s)[0] == p[0]);
        assert(!has_prefix(p + s, a)) by { if has_prefix(p + s, a) { assert((p + s).subrange(0, a.len() as int)[0] == p[0]); } }
        assert((p + s).subrange(1, (p + s).len() as int) =~= t + s);
        assert((p + s).subrange(0, 1) =~= p.subrange(0, 1));
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != a[0] by { assert(t[i] == p[i + 1]); }
        lemma_rskip(t, s, a, b);
        assert(p.subrange(0, 1) + (t + replace_all(s, a, b)) =~= p + replace_all(s, a, b));
    }
}
proof fn lemma_hit(s: S, a: S, b: S)
    requires a.len() > 0
    ensures replace_all(a + s, a, b) == b + replace_all(s, a, b)
{
    assert((a + s).subrange(0, a.len() as int) =~= a);
    assert((a + s).subrange(a.len() as int, (a + s).len() as int) =~= s);
}
proof fn lemma_rune_avoids(r: int, b: u8)
    requires printable(r), b < 128u8, r != b as int
    ensures avoids(rune_str(r), b)
{ ax_rune(r); }
// taking the backslashes before q away again
proof fn lemma_unescape(rs: Seq<int>, t: S, a: S, b: S, q: int)
    requires simple(rs), ascii(q), q != 92, a == seq![92u8, q as u8], b == seq![q as u8]
    ensures replace_all(cat(bs(rs, q)) + t, a, b) == cat(rs) + replace_all(t, a, b)
    decreases rs.len()
{
    if rs.len() == 0 { assert(cat(bs(rs, q)) + t =~= t); assert(cat(rs) + replace_all(t, a, b) =~= replace_all(t, a, b)); }
    else {
        let r = rs.subrange(1, rs.len() as int);
        lemma_plain_tail(rs);
        lemma_unescape(r, t, a, b, q);
        ax_rune(q); ax_rune(92); ax_rune(rs[0]);
        let u = cat(bs(r, q)) + t;
        assert(printable(rs[0]));
        if rs[0] == q {
            lemma_qcat(seq![92int, q], bs(r, q)); lemma_qcat(seq![92int], seq![q]); lemma_cat1(92); lemma_cat1(q);
            assert(seq![92int] + seq![q] =~= seq![92int, q]);
            assert(cat(seq![92int, q]) =~= a);
            assert(cat(bs(rs, q)) + t =~= a + u);
            lemma_hit(u, a, b);
            assert(b + (cat(r) + replace_all(t, a, b)) =~= cat(rs) + replace_all(t, a, b));
        } else {
            lemma_qcat(seq![rs[0]], bs(r, q)); lemma_cat1(rs[0]);
            assert(cat(bs(rs, q)) + t =~= rune_str(rs[0]) + u);
            lemma_rune_avoids(rs[0], 92u8);
            lemma_rskip(rune_str(rs[0]), u, a, b);
            assert(rune_str(rs[0]) + (cat(r) + replace_all(t, a, b)) =~= cat(rs) + replace_all(t, a, b));
        }
    }
}
// putting a backslash before every q
proof fn lemma_do_escape(rs: Seq<int>, t: S, a: S, b: S, q: int)
    requires simple(rs), ascii(q), q != 92, a == seq![q as u8], b == seq![92u8, q as u8]
    ensures replace_all(cat(rs) + t, a, b) == cat(bs(rs, q)) + replace_all(t, a, b)
    decreases rs.len()
{
    if rs.len() == 0 { assert(cat(rs) + t =~= t); assert(cat(bs(rs, q)) + replace_all(t, a, b) =~= replace_all(t, a, b)); }
    else {
        let r = rs.subrange(1, rs.len() as int);
        lemma_plain_tail(rs);
        lemma_do_escape(r, t, a, b, q);
        ax_rune(q); ax_rune(92); ax_rune(rs[0]);
        let u = cat(r) + t;
        assert(printable(rs[0]));
        assert(cat(rs) + t =~= rune_str(rs[0]) + u);
        if rs[0] == q {
            lemma_qcat(seq![92int, q], bs(r, q)); lemma_qcat(seq![92int], seq![q]); lemma_cat1(92); lemma_cat1(q);
            assert(seq![92int] + seq![q] =~= seq![92int, q]);
            assert(cat(seq![92int, q]) =~= b);
            lemma_hit(u, a, b);
            assert(b + (cat(bs(r, q)) + replace_all(t, a, b)) =~= cat(bs(rs, q)) + replace_all(t, a, b));
        } else {
            lemma_qcat(seq![rs[0]], bs(r, q)); lemma_cat1(rs[0]);
            lemma_rune_avoids(rs[0], q as u8);
            lemma_rskip(rune_str(rs[0]), u, a, b);
            assert(rune_str(rs[0]) + (cat(bs(r, q)) + replace_all(t, a, b)) =~= cat(bs(rs, q)) + replace_all(t, a, b));
        }
    }
}
// no two backslashes in a row
proof fn lemma_no_double(rs: Seq<int>, t: S, a: S, b: S, q: int)
    requires simple(rs), ascii(q), q != 92, a == seq![92u8, 92u8], avoids(t, 92u8), printable(q)
    ensures replace_all(cat(bs(rs, q)) + t, a, b) == cat(bs(rs, q)) + t
    decreases rs.len()
{
    if rs.len() == 0 {
        assert(cat(bs(rs, q)) + t =~= t); assert(t + sempty() =~= t);
        lemma_rskip(t, sempty(), a, b);
        assert(replace_all(sempty(), a, b) == sempty());
    } else {
        let r = rs.subrange(1, rs.len() as int);
        lemma_plain_tail(rs);
        lemma_no_double(r, t, a, b, q);
        ax_rune(q); ax_rune(92); ax_rune(rs[0]);
        let u = cat(bs(r, q)) + t;
        assert(printable(rs[0]));
        if rs[0] == q {
            lemma_qcat(seq![92int, q], bs(r, q)); lemma_qcat(seq![92int], seq![q]); lemma_cat1(92); lemma_cat1(q);
            assert(seq![92int] + seq![q] =~= seq![92int, q]);
            let v = seq![q as u8] + u;
            let s = seq![92u8] + v;
            assert(cat(bs(rs, q)) + t =~= s);
            lemma_rskip(seq![q as u8], u, a, b);
            assert(!has_prefix(s, a)) by { if has_prefix(s, a) { assert(s.subrange(0, 2)[1] == s[1]); assert(s[1] == q as u8); } }
            assert(s.subrange(1, s.len() as int) =~= v); assert(s.subrange(0, 1) =~= seq![92u8]);
            assert(replace_all(s, a, b) =~= s);
        } else {
            lemma_qcat(seq![rs[0]], bs(r, q)); lemma_cat1(rs[0]);
            assert(cat(bs(rs, q)) + t =~= rune_str(rs[0]) + u);
            lemma_rune_avoids(rs[0], 92u8);
            lemma_rskip(rune_str(rs[0]), u, a, b);
            assert(rune_str(rs[0]) + u =~= cat(bs(rs, q)) + t);
        }
    }
}
proof fn lemma_bs_none(rs: Seq<int>, q: int)
    requires !rs.contains(q)
    ensures bs(rs, q) == rs
    decreases rs.len()
{
    if rs.len() > 0 {
        let r = rs.subrange(1, rs.len() as int);
        assert(rs[0] != q);
        assert(!r.contains(q)) by { if r.contains(q) { let i = choose|i: int| 0 <= i < r.len() && r[i] == q; assert(rs[i + 1] == q); } }
        lemma_bs_none(r, q);
    }
    assert(bs(rs, q) =~= rs);
}
// the quoted form
pub open spec fn quote_of(rs: Seq<int>) -> int { if rs.contains(34) { 39 } else { 34 } }
pub open spec fn spelled(rs: Seq<int>) -> Seq<int> { if needs_quote(cat(rs)) { seq![quote_of(rs)] + bs(rs, quote_of(rs)) + seq![quote_of(rs)] } else { rs } }
pub proof fn lemma_enq(rs: Seq<int>)
    requires simple(rs)
    ensures enq(cat(rs)) == cat(spelled(rs))
{
    lits_ax();
    let s = cat(rs);
    lemma_plain_tail(rs);
    ax_decode(rs); ax_quoted(rs); ax_rune(34); ax_rune(39); ax_rune(92);
    let dq = lit!("\""); let sq = lit!("'"); let bdq = lit!("\\\""); let bsq = lit!("\\'"); let bb = lit!("\\\\"); let b1 = lit!("\\");
    assert(dq =~= seq![34u8]); assert(sq =~= seq![39u8]); assert(bdq =~= seq![92u8, 34u8]); assert(bsq =~= seq![92u8, 39u8]); assert(bb =~= seq![92u8, 92u8]); assert(b1 =~= seq![92u8]);
    if needs_quote(s) {
        let q0 = go_quote(s);
        if rs.contains(34) {
            // take the backslashes before " away
            let c1 = cat(bs(rs, 34));
            assert(q0 =~= dq + (c1 + dq));
            lemma_rskip(dq, c1 + dq, bdq, dq);
            lemma_unescape(rs, dq, bdq, dq, 34);
            assert(replace_all(dq, bdq, dq) == dq);
            let q1 = dq + (s + dq);
            assert(replace_all(q0, bdq, dq) =~= q1);
            // put them before '
            lemma_rskip(dq, s + dq, sq, bsq);
            lemma_do_escape(rs, dq, sq, bsq, 39);
            assert(dq + sempty() =~= dq); lemma_rskip(dq, sempty(), sq, bsq); assert(replace_all(sempty(), sq, bsq) == sempty());
            let c2 = cat(bs(rs, 39));
            let q2 = dq + (c2 + dq);
            assert(replace_all(q1, sq, bsq) =~= q2);
            assert(q2.subrange(1, q2.len() - 1) =~= c2);
            assert(repr_text(s) == sq + c2 + sq);
            assert(sq + c2 + sq =~= sq + (c2 + sq));
            lemma_rskip(sq, c2 + sq, bb, b1);
            lemma_no_double(rs, sq, bb, b1, 39);
            assert(enq(s) =~= sq + c2 + sq);
            lemma_qcat(seq![39int], bs(rs, 39)); lemma_qcat(seq![39int] + bs(rs, 39), seq![39int]); lemma_cat1(39);
        } else {
            lemma_bs_none(rs, 34);
            assert(repr_text(s) == dq + s + dq);
            assert(dq + s + dq =~= dq + (s + dq));
            lemma_rskip(dq, s + dq, bb, b1);
            lemma_no_double(rs, dq, bb, b1, 34);
            assert(enq(s) =~= dq + s + dq);
            lemma_qcat(seq![34int], rs); lemma_qcat(seq![34int] + rs, seq![34int]); lemma_cat1(34);
        }
    }
}

// ---- unquoted strings ----
proof fn lemma_esc_plain(rs: Seq<int>, k: int)
    requires simple(rs), 0 <= k <= rs.len()
    ensures esc_prev(rs, k) != 92,
        esc_text(rs, k) + (if esc_prev(rs, k) == 36 { rune_str(36) } else { sempty() }) == cat(rs.subrange(0, k)),
        k > 0 && esc_prev(rs, k) == 36 ==> rs[k - 1] == 36, k > 0 && rs[k - 1] == 36 ==> esc_prev(rs, k) == 36,
    decreases k
{
    if k == 0 { assert(rs.subrange(0, 0) =~= Seq::<int>::empty()); assert(esc_text(rs, 0) + sempty() =~= sempty()); }
    else {
        lemma_esc_plain(rs, k - 1);
        let cc = rs[k - 1]; let d = esc_text(rs, k - 1); let pc = esc_prev(rs, k - 1);
        assert(printable(rs[k - 1]) && rs[k - 1] != 92);
        assert(rs.subrange(0, k) =~= rs.subrange(0, k - 1) + seq![cc]);
        lemma_qcat(rs.subrange(0, k - 1), seq![cc]); lemma_cat1(cc);
        assert(d + sempty() =~= d);
        let e = if pc == 36 { d + rune_str(pc) } else { d };
        assert(e == cat(rs.subrange(0, k - 1)));
        if pc == 36 && cc == 123 { assert(esc_text(rs, k) + sempty() =~= esc_text(rs, k)); }
        else { assert(esc_text(rs, k) + sempty() =~= esc_text(rs, k)); }
    }
}
proof fn lemma_escaped_plain(rs: Seq<int>)
    requires simple(rs)
    ensures escaped(cat(rs)) == cat(rs)
{
    lemma_plain_tail(rs);
    ax_decode(rs);
    lemma_esc_plain(rs, rs.len() as int);
    assert(rs.subrange(0, rs.len() as int) =~= rs);
    let d = esc_text(rs, rs.len() as int);
    assert(d + sempty() =~= d);
    if rs.len() > 0 { assert(printable(rs[rs.len() - 1]) && rs[rs.len() - 1] != 92); }
}
// a character that neither ends a word nor is blank
pub open spec fn wordy(r: int) -> bool { !uni_space(r) && r != 123 && r != 59 && r != 34 && r != 39 && r != 125 }
proof fn lemma_quote_from(rs: Seq<int>, i: int, prev: int, last: int, k: int)
    requires simple(rs), 0 <= i <= k < rs.len(), prev != 92, !quote_from(rs, i, false, prev, last)
    ensures wordy(rs[k])
    decreases rs.len() - i
{
    lits_ax();
    let c = rs[i];
    assert(printable(rs[i]) && rs[i] != 92);
    assert(lit!("{;\"'")[0] == 123u8 && lit!("{;\"'")[1] == 59u8 && lit!("{;\"'")[2] == 34u8 && lit!("{;\"'")[3] == 39u8);
    if c == 123 { assert(lit!("{;\"'")[0] as int == c); assert(in_set(lit!("{;\"'"), c)); }
    if c == 59 { assert(lit!("{;\"'")[1] as int == c); assert(in_set(lit!("{;\"'"), c)); }
    if c == 34 { assert(lit!("{;\"'")[2] as int == c); assert(in_set(lit!("{;\"'"), c)); }
    if c == 39 { assert(lit!("{;\"'")[3] as int == c); assert(in_set(lit!("{;\"'"), c)); }
    if k > i { lemma_quote_from(rs, i + 1, c, c, k); }
}
pub proof fn lemma_unquoted(rs: Seq<int>)
    requires simple(rs), !needs_quote(cat(rs))
    ensures rs.len() > 0, wordy(rs[0]), rs[0] != 35, forall|k: int| 0 <= k < rs.len() ==> wordy(#[trigger] rs[k])
{
    lits_ax();
    lemma_plain_tail(rs);
    lemma_cat_len(rs); lemma_escaped_plain(rs); ax_decode(rs);
    let t = rs.subrange(1, rs.len() as int);
    lemma_plain_tail(rs);
    ax_decode(t);
    let set = lit!("{};\"'#"); let c = rs[0];
    if c == 123 { assert(set[0] as int == c); }
    if c == 125 { assert(set[1] as int == c); }
    if c == 59 { assert(set[2] as int == c); }
    if c == 34 { assert(set[3] as int == c); }
    if c == 39 { assert(set[4] as int == c); }
    if c == 35 { assert(set[5] as int == c); }
    assert forall|k: int| 0 <= k < rs.len() implies wordy(#[trigger] rs[k]) by {
        if k > 0 { lemma_quote_from(t, 0, 0, rs[0], k - 1); assert(t[k - 1] == rs[k]); }
    }
}

// ---- reading it back ----
pub open spec fn spells(cs: Seq<S>, i: int, rs: Seq<int>) -> bool { 0 <= i && i + rs.len() <= cs.len() && forall|j: int| 0 <= j < rs.len() ==> cs[i + j] == rune_str(#[trigger] rs[j]) }
pub open spec fn no_ext(x: Mp<S, Opq>) -> bool { x.m == Map::<S, Opq>::empty() }
proof fn lemma_distinct(r: int, q: int)
    requires printable(r), ascii(q), r != q
    ensures rune_str(r) != seq![q as u8], rune_str(r).len() > 0, r != 10 ==> !is_eol(rune_str(r))
{
    lits_ax(); ax_rune(r);
    let c = rune_str(r);
    if c == seq![q as u8] { assert(c[0] == q as u8); assert(c.len() == 1); }
    if has_suffix(c, lit!("\n")) { assert(c.subrange(c.len() - 1, c.len() as int)[0] == lit!("\n")[0]); assert(c[c.len() - 1] == 10u8); }
}
proof fn lemma_spells_tail(cs: Seq<S>, i: int, rs: Seq<int>, k: int)
    requires spells(cs, i, rs), 0 <= k <= rs.len()
    ensures spells(cs, i + k, rs.subrange(k, rs.len() as int))
{
    let t = rs.subrange(k, rs.len() as int);
    assert forall|j: int| 0 <= j < t.len() implies cs[i + k + j] == rune_str(#[trigger] t[j]) by { assert(rs[k + j] == t[j]); }
}
// inside quotes
proof fn lemma_in_quote(x: Mp<S, Opq>, cs: Seq<S>, l: Lx, rs: Seq<int>, q: int)
    requires no_ext(x), simple(rs), q == 34 || q == 39, l.mode == 4, l.q == rune_str(q), !l.esc, !l.done, spells(cs, l.i, bs(rs, q) + seq![q])
    ensures ({
        let m = Lx { tok: l.tok + cat(rs), i: l.i + bs(rs, q).len() + 1, ..l };
        lex_run(x, cs, l) == lex_run(x, cs, emit_tok(cs, m, true))
    })
    decreases rs.len()
{
    lits_ax(); ax_rune(q); ax_rune(92);
    let xs = bs(rs, q) + seq![q];
    assert(l.q =~= seq![q as u8]);
    assert(lit!("\\") =~= seq![92u8]); assert(lit!("\r") =~= seq![13u8]);
    if rs.len() == 0 {
        assert(xs[0] == q); assert(cs[l.i + 0] == rune_str(q));
        assert(l.tok + cat(rs) =~= l.tok);
        assert(!is_eol(rune_str(q))) by { lemma_distinct(q, 92); }
        assert(rune_str(q)[0] == q as u8);
        lemma_lex_step(x, cs, l);
        assert(lex_step(x, cs, l) == emit_tok(cs, Lx { i: l.i + 1, ..l }, true));
    } else {
        let r = rs.subrange(1, rs.len() as int);
        assert(printable(rs[0]) && rs[0] != 92);
        ax_rune(rs[0]);
        lemma_plain_tail(rs);
        lemma_distinct(rs[0], 92); lemma_distinct(rs[0], 13);
        assert(xs[0] == bs(rs, q)[0]); assert(cs[l.i + 0] == rune_str(xs[0]));
        lemma_lex_step(x, cs, l);
        if rs[0] == q {
            let l1 = Lx { i: l.i + 1, esc: true, ..l };
            assert(!is_eol(rune_str(92))) by { lemma_distinct(92, 13); }
            assert(lex_step(x, cs, l) == l1);
            assert(xs[1] == q); assert(cs[l.i + 1] == rune_str(xs[1]));
            lemma_lex_step(x, cs, l1);
            let la = lit!("\\") + rune_str(q);
            assert(la.len() == 2);
            assert(rune_str(q) != lit!("\r")) by { assert(rune_str(q)[0] == q as u8); }
            let l2 = Lx { i: l.i + 2, tok: l.tok + l.q, ..l };
            assert(lex_step(x, cs, l1) == l2);
            lemma_spells_tail(cs, l.i, xs, 2);
            assert(xs.subrange(2, xs.len() as int) =~= bs(r, q) + seq![q]);
            lemma_in_quote(x, cs, l2, r, q);
            assert(l2.tok + cat(r) =~= l.tok + cat(rs));
        } else {
            let c = rune_str(rs[0]);
            lemma_distinct(rs[0], q);
            let l1 = Lx { i: l.i + 1, tok: l.tok + c, ..l };
            assert(c != lit!("\\") + l.q) by { if c == lit!("\\") + l.q { assert(c[0] == 92u8); } }
            assert(lex_step(x, cs, l) == l1);
            lemma_spells_tail(cs, l.i, xs, 1);
            assert(xs.subrange(1, xs.len() as int) =~= bs(r, q) + seq![q]);
            lemma_in_quote(x, cs, l1, r, q);
            assert(l1.tok + cat(r) =~= l.tok + cat(rs));
        }
    }
}
proof fn lemma_not_lits(r: int)
    requires printable(r), wordy(r), r != 92
    ensures !is_space(rune_str(r)), !is_special(rune_str(r)), !is_quote(rune_str(r)), rune_str(r) != lit!("\\"), rune_str(r) != lit!("\r"), !is_eol(rune_str(r)), r != 35 ==> rune_str(r) != lit!("#"), rune_str(r).len() > 0,
{
    lits_ax(); ax_rune(r);
    assert(lit!("{") =~= seq![123u8]); assert(lit!("}") =~= seq![125u8]); assert(lit!(";") =~= seq![59u8]); assert(lit!("\"") =~= seq![34u8]); assert(lit!("'") =~= seq![39u8]);
    assert(lit!("\\") =~= seq![92u8]); assert(lit!("\r") =~= seq![13u8]); assert(lit!("#") =~= seq![35u8]);
    lemma_distinct(r, 123); lemma_distinct(r, 125); lemma_distinct(r, 59); lemma_distinct(r, 34); lemma_distinct(r, 39); lemma_distinct(r, 92); lemma_distinct(r, 13);
    if r != 35 { lemma_distinct(r, 35); }
}
// inside a word
proof fn lemma_in_word(x: Mp<S, Opq>, cs: Seq<S>, l: Lx, rs: Seq<int>)
    requires no_ext(x), simple(rs), l.mode == 1, l.tok.len() > 0, !l.esc, !l.done, !l.term, spells(cs, l.i, rs), forall|k: int| 0 <= k < rs.len() ==> wordy(#[trigger] rs[k])
    ensures lex_run(x, cs, l) == lex_run(x, cs, Lx { tok: l.tok + cat(rs), i: l.i + rs.len(), ..l })
    decreases rs.len()
{
    if rs.len() == 0 { assert(l.tok + cat(rs) =~= l.tok); }
    else {
        let r = rs.subrange(1, rs.len() as int);
        assert(printable(rs[0]) && rs[0] != 92); assert(wordy(rs[0]));
        lemma_plain_tail(rs);
        assert forall|k: int| 0 <= k < r.len() implies wordy(#[trigger] r[k]) by { assert(r[k] == rs[k + 1]); }
        lemma_not_lits(rs[0]);
        assert(cs[l.i + 0] == rune_str(rs[0]));
        lemma_lex_step(x, cs, l);
        let l1 = Lx { tok: l.tok + rune_str(rs[0]), i: l.i + 1, ..l };
        assert(lex_step(x, cs, l) == l1);
        lemma_spells_tail(cs, l.i, rs, 1);
        lemma_in_word(x, cs, l1, r);
        assert(l1.tok + cat(r) =~= l.tok + cat(rs));
    }
}
// Between tokens, the text written for s followed by sep (a blank or ;) is read as one token with value s (and the ;).
pub open spec fn read_back(cs: Seq<S>, l: Lx, rs: Seq<int>, sep: int) -> Seq<NgxToken> {
    let t = NgxToken { Value: cat(rs), Line: lno(cs, l.i + 1), IsQuoted: needs_quote(cat(rs)), Error: GoErr::Nil };
    l.out.push(t)
}
pub proof fn quoted_reads_back(x: Mp<S, Opq>, cs: Seq<S>, l: Lx, rs: Seq<int>)
    requires no_ext(x), simple(rs), l.mode == 0, l.tok == sempty(), !l.esc, !l.done, needs_quote(cat(rs)), spells(cs, l.i, spelled(rs))
    ensures exists|m: Lx| lex_run(x, cs, l) == lex_run(x, cs, m) && #[trigger] m.out == read_back(cs, l, rs, 0) && m.mode == 0 && m.i == l.i + spelled(rs).len() && m.tok == sempty() && !m.esc && !m.done && !m.term && m.depth == l.depth
{
    lits_ax();
    let q = quote_of(rs); let xs = spelled(rs);
    ax_rune(q);
    assert(lit!("\"") =~= seq![34u8]); assert(lit!("'") =~= seq![39u8]); assert(lit!("\\") =~= seq![92u8]); assert(lit!("\r") =~= seq![13u8]); assert(lit!("#") =~= seq![35u8]);
    assert(xs[0] == q); assert(cs[l.i + 0] == rune_str(xs[0]));
    lemma_distinct(q, 92); lemma_distinct(q, 13); lemma_distinct(q, 35); 
    assert(lit!("{") =~= seq![123u8]); lemma_distinct(q, 123);
    lemma_lex_step(x, cs, l);
    let l1 = Lx { i: l.i + 1, start: lno(cs, l.i + 1), mode: 4, q: rune_str(q), term: false, ..l };
    assert(lex_step(x, cs, l) == l1);
    lemma_spells_tail(cs, l.i, xs, 1);
    assert(xs.subrange(1, xs.len() as int) =~= bs(rs, q) + seq![q]);
    lemma_in_quote(x, cs, l1, rs, q);
    let m = emit_tok(cs, Lx { tok: l1.tok + cat(rs), i: l1.i + bs(rs, q).len() + 1, ..l1 }, true);
    assert(l1.tok + cat(rs) =~= cat(rs));
    assert(m.out == read_back(cs, l, rs, 0));
}
pub proof fn unquoted_reads_back(x: Mp<S, Opq>, cs: Seq<S>, l: Lx, rs: Seq<int>, sep: int)
    requires no_ext(x), simple(rs), l.mode == 0, l.tok == sempty(), !l.esc, !l.done, l.depth >= 0, !needs_quote(cat(rs)), sep == 32 || sep == 59, spells(cs, l.i, rs + seq![sep])
    ensures exists|m: Lx| lex_run(x, cs, l) == lex_run(x, cs, m) && m.mode == 0 && #[trigger] m.i == l.i + rs.len() + 1 && m.tok == sempty() && !m.esc && !m.done && m.depth == l.depth
        && m.out == (if sep == 59 { read_back(cs, l, rs, sep).push(NgxToken { Value: lit!(";"), Line: lno(cs, l.i + 1), IsQuoted: false, Error: GoErr::Nil }) } else { read_back(cs, l, rs, sep) })
{
    lits_ax();
    lemma_unquoted(rs);
    let xs = rs + seq![sep];
    assert(printable(rs[0]) && rs[0] != 92); assert(wordy(rs[0]));
    lemma_not_lits(rs[0]);
    assert(xs[0] == rs[0]); assert(cs[l.i + 0] == rune_str(xs[0]));
    lemma_lex_step(x, cs, l);
    let l1 = Lx { i: l.i + 1, start: lno(cs, l.i + 1), mode: 1, tok: rune_str(rs[0]), term: false, ..l };
    assert(sempty() + rune_str(rs[0]) =~= rune_str(rs[0]));
    assert(lex_step(x, cs, l) == l1);
    let r = rs.subrange(1, rs.len() as int);
    lemma_plain_tail(rs);
    assert forall|k: int| 0 <= k < r.len() implies wordy(#[trigger] r[k]) by { assert(r[k] == rs[k + 1]); }
    assert(spells(cs, l1.i, r)) by { assert forall|j: int| 0 <= j < r.len() implies cs[l1.i + j] == rune_str(#[trigger] r[j]) by { assert(xs[j + 1] == r[j]); assert(cs[l.i + (j + 1)] == rune_str(xs[j + 1])); } }
    lemma_in_word(x, cs, l1, r);
    let l2 = Lx { tok: l1.tok + cat(r), i: l1.i + r.len(), ..l1 };
    assert(l2.tok == cat(rs));
    // the separator
    assert(xs[rs.len() as int] == sep); assert(cs[l.i + rs.len()] == rune_str(sep));
    ax_rune(sep);
    assert(lit!("\\") =~= seq![92u8]); assert(lit!("\r") =~= seq![13u8]); assert(lit!(";") =~= seq![59u8]); assert(lit!("{") =~= seq![123u8]); assert(lit!("}") =~= seq![125u8]);
    lemma_distinct(sep, 92); lemma_distinct(sep, 13); lemma_distinct(sep, 123); lemma_distinct(sep, 125);
    lemma_lex_step(x, cs, l2);
    assert(l2.tok.len() > 0);
    let m = lex_step(x, cs, l2);
    if sep == 59 {
        assert(rune_str(59) == lit!(";"));
        assert(lit!("\"") =~= seq![34u8]); assert(lit!("'") =~= seq![39u8]); lemma_distinct(59, 34); lemma_distinct(59, 39);
        assert(m == on_special(cs, Lx { i: l2.i + 1, ..l2 }, lit!(";")));
    } else {
        assert(is_space(rune_str(32)));
    }
    assert(m.i == l.i + rs.len() + 1);
}
// A file holding just the text written for s and a ; is read as exactly these two tokens.
pub proof fn written_reads_back(rd: Opq, rs: Seq<int>)
    requires simple(rs), content(rd) == enq(cat(rs)) + lit!(";")
    ensures ({
        let ts = lexed(Mp { m: Map::empty(), nn: false }, chars(rd));
        ts.len() == 2 && ts[0].Value == cat(rs) && ts[0].IsQuoted == needs_quote(cat(rs)) && ts[0].Error is Nil && ts[0].Line == 1
            && ts[1].Value == lit!(";") && !ts[1].IsQuoted && ts[1].Error is Nil
    })
{
    lits_ax();
    let x = Mp { m: Map::<S, Opq>::empty(), nn: false };
    lemma_enq(rs); ax_rune(59); ax_rune(34); ax_rune(39); ax_rune(92);
    let xs = spelled(rs) + seq![59int];
    assert(lit!(";") =~= seq![59u8]);
    lemma_qcat(spelled(rs), seq![59int]); lemma_cat1(59);
    lemma_bs_readable(rs, quote_of(rs));
    assert(readable(xs)) by { assert forall|i: int| 0 <= i < xs.len() implies #[trigger] printable(xs[i]) by {
        if i < spelled(rs).len() { assert(xs[i] == spelled(rs)[i]); if needs_quote(cat(rs)) { let b = bs(rs, quote_of(rs)); if 0 < i <= b.len() { assert(spelled(rs)[i] == b[i - 1]); assert(printable(b[i - 1])); } } else { assert(printable(rs[i])); } }
    } }
    ax_read(rd, xs);
    let cs = chars(rd);
    let l = lx0();
    assert(spells(cs, 0, xs)) by { assert forall|j: int| 0 <= j < xs.len() implies cs[0 + j] == rune_str(#[trigger] xs[j]) by {} }
    lemma_first_line(cs, xs);
    if needs_quote(cat(rs)) {
        assert(spells(cs, 0, spelled(rs))) by { assert forall|j: int| 0 <= j < spelled(rs).len() implies cs[0 + j] == rune_str(#[trigger] spelled(rs)[j]) by { assert(xs[j] == spelled(rs)[j]); } }
        quoted_reads_back(x, cs, l, rs);
        let m = choose|m: Lx| lex_run(x, cs, l) == lex_run(x, cs, m) && #[trigger] m.out == read_back(cs, l, rs, 0) && m.mode == 0 && m.i == l.i + spelled(rs).len() && m.tok == sempty() && !m.esc && !m.done && !m.term && m.depth == l.depth;
        assert(xs[m.i] == 59); assert(cs[m.i] == rune_str(xs[m.i]));
        lemma_distinct(59, 92); lemma_distinct(59, 13); lemma_distinct(59, 35); lemma_distinct(59, 34); lemma_distinct(59, 39); lemma_distinct(59, 123); lemma_distinct(59, 125);
        assert(lit!("\"") =~= seq![34u8]); assert(lit!("'") =~= seq![39u8]); assert(lit!("\\") =~= seq![92u8]); assert(lit!("\r") =~= seq![13u8]); assert(lit!("#") =~= seq![35u8]); assert(lit!("{") =~= seq![123u8]); assert(lit!("}") =~= seq![125u8]);
        lemma_lex_step(x, cs, m);
        let n = lex_step(x, cs, m);
        let m1 = Lx { i: m.i + 1, start: lno(cs, m.i + 1), mode: 1, ..m };
        assert(n == on_special(cs, m1, lit!(";")));
        lemma_lex_end(x, cs, n);
        assert(n.out == m.out.push(NgxToken { Value: lit!(";"), Line: m1.start, IsQuoted: false, Error: GoErr::Nil }));
    } else {
        unquoted_reads_back(x, cs, l, rs, 59);
        let m = choose|m: Lx| lex_run(x, cs, l) == lex_run(x, cs, m) && m.mode == 0 && #[trigger] m.i == l.i + rs.len() + 1 && m.tok == sempty() && !m.esc && !m.done && m.depth == l.depth
            && m.out == read_back(cs, l, rs, 59).push(NgxToken { Value: lit!(";"), Line: lno(cs, l.i + 1), IsQuoted: false, Error: GoErr::Nil });
        lemma_lex_end(x, cs, m);
    }
}
proof fn lemma_first_line(cs: Seq<S>, xs: Seq<int>)
    requires readable(xs), spells(cs, 0, xs), xs.len() > 0
    ensures lno(cs, 1) == 1
{
    lits_ax();
    assert(cs[0int + 0] == rune_str(xs[0])); assert(printable(xs[0])); ax_rune(xs[0]);
    if xs[0] != 92 { lemma_distinct(xs[0], 92); } else { lemma_distinct(xs[0], 13); }
    assert(lno(cs, 0) == 1); assert(lno(cs, 1) == lno(cs, 0) + (if is_eol(cs[0]) { 1int } else { 0 }));
}
proof fn lemma_bs_readable(rs: Seq<int>, q: int)
    requires simple(rs), q == 34 || q == 39
    ensures readable(bs(rs, q))
    decreases rs.len()
{
    ax_rune(92); ax_rune(q);
    if rs.len() > 0 {
        let r = rs.subrange(1, rs.len() as int);
        assert(printable(rs[0]));
        lemma_plain_tail(rs);
        lemma_bs_readable(r, q);
        let p = if rs[0] == q { seq![92int, q] } else { seq![rs[0]] };
        assert forall|i: int| 0 <= i < bs(rs, q).len() implies #[trigger] printable(bs(rs, q)[i]) by { if i < p.len() { assert(bs(rs, q)[i] == p[i]); } else { assert(bs(rs, q)[i] == bs(r, q)[i - p.len()]); } }
    }
}
