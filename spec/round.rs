// ---- the text built, character by character ----
pub open spec fn fine(s: S) -> bool { simple(runes(s)) && s == cat(runes(s)) }
pub open spec fn no_builders(o: BuildOptions) -> bool { !o.extBuilders.nn }
pub open spec fn q_word(s: S) -> Seq<int> { spelled(runes(s)) }
pub open spec fn q_args(a: Seq<S>, k: int) -> Seq<int> decreases k {
    if k <= 0 { Seq::empty() } else { q_args(a, k - 1) + seq![32int] + q_word(a[k - 1]) }
}
pub open spec fn q_cond(a: Seq<S>, k: int) -> Seq<int> decreases k {
    if k <= 0 { Seq::empty() } else if k == 1 && !needs_quote(a[0]) { q_word(a[0]) } else { q_cond(a, k - 1) + seq![32int] + q_word(a[k - 1]) }
}
pub open spec fn is_if(x: Directive) -> bool { x.Directive == lit!("if") && !x.IsMapBlockParameter }
pub open spec fn q_head(x: Directive) -> Seq<int> {
    if is_if(x) { q_word(x.Directive) + seq![32int, 40] + q_cond(x.Args.s, x.Args.s.len() as int) + seq![41int] }
    else { q_word(x.Directive) + q_args(x.Args.s, x.Args.s.len() as int) }
}
pub open spec fn q_indent(o: BuildOptions, depth: int) -> Seq<int> {
    if o.Tabs { Seq::new(depth as nat, |i: int| 9int) } else { Seq::new((depth * o.Indent) as nat, |i: int| 32int) }
}
pub open spec fn same_line(b: Seq<Option<Directive>>, k: int, line: int, o: BuildOptions) -> bool {
    b[k] is Some && is_comment(b[k]->0) && b[k]->0.Line == last_line(b, k, line, o)
}
pub open spec fn q_stmt(s: Option<Directive>, depth: int, o: BuildOptions) -> Seq<int>
    decreases s, 0nat
{
    match s { None => Seq::empty(), Some(x) =>
        if is_comment(x) { seq![35int] + runes(x.Comment->0) }
        else if !x.Block.nn { q_head(x) + seq![59int] }
        else { q_head(x) + seq![32int, 123] + q_body(x.Block.s, x.Block.s.len() as int, false, depth + 1, x.Line, o) + (seq![10int] + q_indent(o, depth) + seq![125int]) }
    }
}
#[verifier::opaque]
pub open spec fn q_body(b: Seq<Option<Directive>>, k: int, top: bool, depth: int, line: int, o: BuildOptions) -> Seq<int>
    decreases b, k
{
    if k <= 0 || k > b.len() { Seq::empty() }
    else {
        let p = q_body(b, k - 1, top, depth, line, o);
        if same_line(b, k - 1, line, o) { p + (seq![32int, 35] + runes(b[k - 1]->0.Comment->0)) }
        else { p + ((if k == 1 && top { Seq::<int>::empty() } else { seq![10int] }) + q_indent(o, depth) + q_stmt(b[k - 1], depth, o)) }
    }
}
pub open spec fn q_piece(b: Seq<Option<Directive>>, k: int, top: bool, depth: int, line: int, o: BuildOptions) -> Seq<int> {
    if same_line(b, k, line, o) { seq![32int, 35] + runes(b[k]->0.Comment->0) }
    else { (if k == 0 && top { Seq::<int>::empty() } else { seq![10int] }) + q_indent(o, depth) + q_stmt(b[k], depth, o) }
}
proof fn lemma_q_body(b: Seq<Option<Directive>>, k: int, top: bool, depth: int, line: int, o: BuildOptions)
    requires 0 <= k < b.len()
    ensures q_body(b, 0, top, depth, line, o) == Seq::<int>::empty(),
        q_body(b, k + 1, top, depth, line, o) == q_body(b, k, top, depth, line, o) + q_piece(b, k, top, depth, line, o)
{ reveal(q_body); }
proof fn lemma_q_block(x: Directive, depth: int, o: BuildOptions)
    requires !is_comment(x), x.Block.nn
    ensures q_stmt(Some(x), depth, o) == q_head(x) + seq![32int, 123] + q_body(x.Block.s, x.Block.s.len() as int, false, depth + 1, x.Line, o) + (seq![10int] + q_indent(o, depth) + seq![125int])
{ reveal(q_body); }
proof fn lemma_text_block(d: S, x: Directive, depth: int, o: BuildOptions)
    requires !is_comment(x), x.Block.nn, ext_of(o, x) is None
    ensures stmt_text(d, Some(x), depth, o) == body_text(head_text(d, x) + lit!(" {"), x.Block.s, x.Block.s.len() as int, false, depth + 1, x.Line, o) + lit!("\n") + indent_text(o, depth) + lit!("}")
{ reveal(body_text); }
// The trees the theorem is about: printable text without backslashes, conditions that are not empty, and no
// comment that carries the line number of a comment right before it (the builder puts such comments on one line).
pub open spec fn fine_one(x: Directive) -> bool {
    &&& fine(x.Directive)
    &&& forall|i: int| 0 <= i < x.Args.s.len() ==> fine(#[trigger] x.Args.s[i])
    &&& is_comment(x) ==> fine(x.Comment->0)
    &&& is_if(x) ==> x.Args.s.len() > 0
}
pub open spec fn joined(b: Seq<Option<Directive>>, k: int, line: int, o: BuildOptions) -> bool {
    0 < k < b.len() && b[k - 1] is Some && is_comment(b[k - 1]->0) && same_line(b, k, line, o)
}
pub open spec fn fine_dir(d: Option<Directive>, o: BuildOptions) -> bool decreases d, 0nat {
    d is Some && fine_one(d->0) && fine_list(d->0.Block.s, d->0.Line, o)
}
pub open spec fn fine_list(b: Seq<Option<Directive>>, line: int, o: BuildOptions) -> bool decreases b, b.len() + 1 {
    forall|i: int| 0 <= i < b.len() ==> fine_dir(#[trigger] b[i], o) && !joined(b, i, line, o)
}

// ---- it is the text the builder writes ----
proof fn lemma_lit1(r: int)
    requires ascii(r)
    ensures cat(seq![r]) == seq![r as u8]
{ ax_rune(r); lemma_cat1(r); }
proof fn lemma_lit2(r: int, q: int)
    requires ascii(r), ascii(q)
    ensures cat(seq![r, q]) == seq![r as u8, q as u8]
{ lemma_lit1(r); lemma_lit1(q); lemma_qcat(seq![r], seq![q]); assert(seq![r] + seq![q] =~= seq![r, q]); assert(seq![r as u8] + seq![q as u8] =~= seq![r as u8, q as u8]); }
proof fn lemma_q_word(d: Seq<int>, s: S)
    requires fine(s)
    ensures cat(d) + enq(s) == cat(d + q_word(s)), textual(q_word(s)), q_word(s).len() > 0
{
    lemma_enq(runes(s)); lemma_qcat(d, q_word(s));
    ax_rune(34); ax_rune(39);
    let rs = runes(s); let q = quote_of(rs);
    lemma_bs_readable(rs, q);
    assert forall|i: int| 0 <= i < q_word(s).len() implies #[trigger] printable(q_word(s)[i]) by {
        if needs_quote(cat(rs)) { let b = bs(rs, q); if 0 < i <= b.len() { assert(q_word(s)[i] == b[i - 1]); assert(printable(b[i - 1])); } } else { assert(printable(rs[i])); }
    }
    if !needs_quote(cat(rs)) { lemma_unquoted(rs); }
}
proof fn lemma_textual(a: Seq<int>, b: Seq<int>)
    requires textual(a), textual(b)
    ensures textual(a + b)
{ assert forall|i: int| 0 <= i < (a + b).len() implies #[trigger] printable((a + b)[i]) || (a + b)[i] == 9 || (a + b)[i] == 10 by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
proof fn lemma_textual1(r: int)
    requires 32 <= r < 127 || r == 10 || r == 9
    ensures textual(seq![r])
{ ax_rune(r); }
proof fn lemma_q_args(d: Seq<int>, a: Seq<S>, k: int)
    requires 0 <= k <= a.len(), forall|i: int| 0 <= i < a.len() ==> fine(#[trigger] a[i])
    ensures args_text(cat(d), a, k) == cat(d + q_args(a, k)), textual(q_args(a, k))
    decreases k
{
    if k <= 0 { assert(d + q_args(a, k) =~= d); }
    else {
        lemma_q_args(d, a, k - 1);
        let p = d + q_args(a, k - 1);
        lits_ax(); lemma_lit1(32); assert(lit!(" ") =~= seq![32u8]);
        lemma_qcat(p, seq![32int]);
        lemma_q_word(p + seq![32int], a[k - 1]);
        assert(d + q_args(a, k) =~= p + seq![32int] + q_word(a[k - 1]));
        lemma_textual1(32); lemma_textual(q_args(a, k - 1), seq![32int]); lemma_textual(q_args(a, k - 1) + seq![32int], q_word(a[k - 1]));
    }
}
proof fn lemma_q_cond(d: Seq<int>, a: Seq<S>, k: int)
    requires 0 <= k <= a.len(), forall|i: int| 0 <= i < a.len() ==> fine(#[trigger] a[i])
    ensures cond_text(cat(d), a, k) == cat(d + q_cond(a, k)), textual(q_cond(a, k))
    decreases k
{
    if k <= 0 { assert(d + q_cond(a, k) =~= d); }
    else if k == 1 && !needs_quote(a[0]) { lemma_q_word(d, a[0]); }
    else {
        lemma_q_cond(d, a, k - 1);
        let p = d + q_cond(a, k - 1);
        lits_ax(); lemma_lit1(32); assert(lit!(" ") =~= seq![32u8]);
        lemma_qcat(p, seq![32int]);
        lemma_q_word(p + seq![32int], a[k - 1]);
        assert(d + q_cond(a, k) =~= p + seq![32int] + q_word(a[k - 1]));
        lemma_textual1(32); lemma_textual(q_cond(a, k - 1), seq![32int]); lemma_textual(q_cond(a, k - 1) + seq![32int], q_word(a[k - 1]));
    }
}
// "if" needs no quotes
proof fn lemma_if_word()
    ensures fine(lit!("if")), !needs_quote(lit!("if")), enq(lit!("if")) == lit!("if"), runes(lit!("if")) == seq![105int, 102]
{
    lits_ax();
    let rs = seq![105int, 102];
    lemma_lit2(105, 102); ax_rune(105); ax_rune(102);
    assert(lit!("if") =~= seq![105u8, 102u8]);
    assert(simple(rs)); lemma_plain_tail(rs); ax_decode(rs); lemma_escaped_plain(rs);
    let t = rs.subrange(1, 2);
    assert(t =~= seq![102int]); lemma_plain_tail(t); ax_decode(t);
    assert(!in_set(lit!("{};\"'#"), 105)) by { let s = lit!("{};\"'#"); assert(s.len() == 6 && s[0] == 123u8 && s[1] == 125u8 && s[2] == 59u8 && s[3] == 34u8 && s[4] == 39u8 && s[5] == 35u8); }
    assert(!in_set(lit!("{;\"'"), 102)) by { let s = lit!("{;\"'"); assert(s.len() == 4 && s[0] == 123u8 && s[1] == 59u8 && s[2] == 34u8 && s[3] == 39u8); }
    assert(!has_prefix(lit!("if"), lit!("${"))) by { if has_prefix(lit!("if"), lit!("${")) { assert(lit!("if").subrange(0, 2)[0] == lit!("${")[0]); assert(lit!("${")[0] == 36u8); } }
    assert(quote_from(t, 0, false, 0, 105) == quote_from(t, 1, false, 102, 102)) by { reveal_with_fuel(quote_from, 2); }
}
proof fn lemma_is_if(s: S)
    requires fine(s)
    ensures (enq(s) == lit!("if")) == (s == lit!("if"))
{
    lits_ax(); lemma_if_word();
    if needs_quote(s) {
        let rs = runes(s); let q = quote_of(rs);
        lemma_enq(rs); lemma_qcat(seq![q], bs(rs, q) + seq![q]); lemma_lit1(q);
        assert(seq![q] + (bs(rs, q) + seq![q]) =~= seq![q] + bs(rs, q) + seq![q]);
        assert(enq(s)[0] == q as u8); assert(lit!("if")[0] == 105u8);
    }
}
proof fn lemma_q_head(d: Seq<int>, x: Directive)
    requires fine_one(x)
    ensures head_text(cat(d), x) == cat(d + q_head(x)), textual(q_head(x)), q_head(x).len() > 0
{
    lits_ax();
    lemma_is_if(x.Directive);
    lemma_q_word(d, x.Directive);
    let p = d + q_word(x.Directive); let n = x.Args.s.len() as int;
    if is_if(x) {
        lemma_lit2(32, 40); lemma_lit1(41); assert(lit!(" (") =~= seq![32u8, 40u8]); assert(lit!(")") =~= seq![41u8]);
        lemma_qcat(p, seq![32int, 40]);
        lemma_q_cond(p + seq![32int, 40], x.Args.s, n);
        let r = p + seq![32int, 40] + q_cond(x.Args.s, n);
        lemma_qcat(r, seq![41int]);
        assert(d + q_head(x) =~= r + seq![41int]);
        ax_rune(32); ax_rune(40); lemma_textual1(41);
        assert(textual(seq![32int, 40]));
        lemma_textual(q_word(x.Directive), seq![32int, 40]); lemma_textual(q_word(x.Directive) + seq![32int, 40], q_cond(x.Args.s, n));
        lemma_textual(q_word(x.Directive) + seq![32int, 40] + q_cond(x.Args.s, n), seq![41int]);
    } else {
        lemma_q_args(p, x.Args.s, n);
        assert(d + q_head(x) =~= p + q_args(x.Args.s, n));
        lemma_textual(q_word(x.Directive), q_args(x.Args.s, n));
    }
}
proof fn lemma_q_blank(c: int, n: int)
    requires c == 32 || c == 9, n >= 0
    ensures cat(Seq::new(n as nat, |i: int| c)) == str_repeat(seq![c as u8], n), textual(Seq::new(n as nat, |i: int| c))
    decreases n
{
    lemma_lit1(c); ax_rune(32);
    let s = Seq::new(n as nat, |i: int| c);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] printable(s[i]) || s[i] == 9 || s[i] == 10 by {}
    if n > 0 {
        lemma_q_blank(c, n - 1);
        assert(s =~= Seq::new((n - 1) as nat, |i: int| c) + seq![c]);
        lemma_qcat(Seq::new((n - 1) as nat, |i: int| c), seq![c]);
    } else { assert(s =~= Seq::<int>::empty()); }
}
proof fn lemma_q_indent(d: Seq<int>, o: BuildOptions, depth: int)
    requires depth >= 0, o.Indent > 0
    ensures cat(d) + indent_text(o, depth) == cat(d + q_indent(o, depth)), textual(q_indent(o, depth))
{
    lits_ax();
    lemma_mul(depth, o.Indent);
    if o.Tabs { lemma_q_blank(9, depth); assert(lit!("\t") =~= seq![9u8]); } else { lemma_q_blank(32, depth * o.Indent); assert(lit!(" ") =~= seq![32u8]); }
    lemma_qcat(d, q_indent(o, depth));
}
proof fn lemma_fine_text(s: S)
    requires fine(s)
    ensures textual(runes(s)), readable(runes(s))
{ lemma_plain_tail(runes(s)); assert forall|i: int| 0 <= i < runes(s).len() implies #[trigger] printable(runes(s)[i]) by {} }
// only printable characters, tabs and line feeds; a line feed is never the last
proof fn lemma_t_comment(p: Seq<int>, c: S)
    requires fine(c), textual(p), p.len() > 0, p.last() >= 32
    ensures textual(p + runes(c)), (p + runes(c)).last() >= 32
{
    let r = runes(c);
    lemma_fine_text(c); lemma_textual(p, r);
    if r.len() > 0 { assert(printable(r[r.len() - 1])); ax_rune(r[r.len() - 1]); assert((p + r).last() == r[r.len() - 1]); } else { assert(p + r =~= p); }
}
pub proof fn lemma_t_stmt(s: Option<Directive>, depth: int, o: BuildOptions)
    requires fine_dir(s, o), no_builders(o), depth >= 0, o.Indent > 0
    ensures textual(q_stmt(s, depth, o)), q_stmt(s, depth, o).len() > 0, q_stmt(s, depth, o).last() >= 32
    decreases s, 0nat
{
    let x = s->0;
    ax_rune(32); ax_rune(123);
    lemma_textual1(35); lemma_textual1(59); lemma_textual1(10); lemma_textual1(125);
    if is_comment(x) { lemma_t_comment(seq![35int], x.Comment->0); }
    else {
        lemma_q_head(Seq::empty(), x);
        if !x.Block.nn { lemma_textual(q_head(x), seq![59int]); }
        else {
            let n = x.Block.s.len() as int;
            lemma_t_list(x.Block.s, n, false, depth + 1, x.Line, o);
            let q = q_body(x.Block.s, n, false, depth + 1, x.Line, o);
            lemma_q_indent(Seq::empty(), o, depth);
            let e = seq![10int] + q_indent(o, depth) + seq![125int];
            assert(textual(seq![32int, 123]));
            lemma_textual(q_head(x), seq![32int, 123]); lemma_textual(q_head(x) + seq![32int, 123], q);
            lemma_textual(seq![10int], q_indent(o, depth)); lemma_textual(seq![10int] + q_indent(o, depth), seq![125int]);
            lemma_textual(q_head(x) + seq![32int, 123] + q, e);
            assert(e.last() == 125);
            lemma_q_block(x, depth, o);
            assert((q_head(x) + seq![32int, 123] + q + e).last() == 125);
        }
    }
}
pub proof fn lemma_t_list(b: Seq<Option<Directive>>, k: int, top: bool, depth: int, line: int, o: BuildOptions)
    requires fine_list(b, line, o), no_builders(o), depth >= 0, o.Indent > 0, 0 <= k <= b.len()
    ensures textual(q_body(b, k, top, depth, line, o)),
        k > 0 ==> q_body(b, k, top, depth, line, o).len() > 0 && q_body(b, k, top, depth, line, o).last() >= 32
    decreases b, k
{
    if k == 0 { reveal(q_body); }
    else {
        lemma_t_list(b, k - 1, top, depth, line, o);
        lemma_q_body(b, k - 1, top, depth, line, o);
        assert(fine_dir(b[k - 1], o));
        let p = q_body(b, k - 1, top, depth, line, o); let x = b[k - 1]->0;
        let e = q_piece(b, k - 1, top, depth, line, o);
        if same_line(b, k - 1, line, o) { ax_rune(32); ax_rune(35); assert(textual(seq![32int, 35])); lemma_t_comment(seq![32int, 35], x.Comment->0); }
        else {
            lemma_textual1(10);
            let nl = if k == 1 && top { Seq::<int>::empty() } else { seq![10int] };
            lemma_q_indent(Seq::empty(), o, depth);
            lemma_t_stmt(b[k - 1], depth, o);
            let q = q_stmt(b[k - 1], depth, o);
            lemma_textual(nl, q_indent(o, depth)); lemma_textual(nl + q_indent(o, depth), q);
        }
        lemma_textual(p, e);
    }
}
// the characters are those of the text built
proof fn lemma_q_open(d: Seq<int>, x: Directive, q: Seq<int>, o: BuildOptions, depth: int)
    requires depth >= 0, o.Indent > 0
    ensures cat(d + q_head(x)) + lit!(" {") == cat(d + q_head(x) + seq![32int, 123]),
        cat(d + q_head(x) + seq![32int, 123] + q) + lit!("\n") + indent_text(o, depth) + lit!("}") == cat(d + (q_head(x) + seq![32int, 123] + q + (seq![10int] + q_indent(o, depth) + seq![125int])))
{
    lits_ax();
    let h = d + q_head(x);
    assert(lit!(" {") =~= seq![32u8, 123u8]); assert(lit!("\n") =~= seq![10u8]); assert(lit!("}") =~= seq![125u8]);
    lemma_lit2(32, 123); lemma_lit1(10); lemma_lit1(125);
    lemma_qcat(h, seq![32int, 123]);
    let h2 = h + seq![32int, 123];
    lemma_qcat(h2 + q, seq![10int]);
    lemma_q_indent(h2 + q + seq![10int], o, depth);
    let h3 = h2 + q + seq![10int] + q_indent(o, depth);
    lemma_qcat(h3, seq![125int]);
    assert(d + (q_head(x) + seq![32int, 123] + q + (seq![10int] + q_indent(o, depth) + seq![125int])) =~= h3 + seq![125int]);
}
proof fn lemma_q_comment(d: Seq<int>, c: S)
    requires fine(c)
    ensures cat(d) + lit!("#") + c == cat(d + (seq![35int] + runes(c))), cat(d) + lit!(" #") + c == cat(d + (seq![32int, 35] + runes(c)))
{
    lits_ax();
    assert(lit!("#") =~= seq![35u8]); lemma_lit1(35);
    assert(lit!(" #") =~= seq![32u8, 35u8]); lemma_lit2(32, 35);
    lemma_qcat(d, seq![35int]); lemma_qcat(d + seq![35int], runes(c));
    lemma_qcat(d, seq![32int, 35]); lemma_qcat(d + seq![32int, 35], runes(c));
    assert(d + (seq![35int] + runes(c)) =~= d + seq![35int] + runes(c));
    assert(d + (seq![32int, 35] + runes(c)) =~= d + seq![32int, 35] + runes(c));
}
pub proof fn lemma_q_stmt(d: Seq<int>, s: Option<Directive>, depth: int, o: BuildOptions)
    requires fine_dir(s, o), no_builders(o), depth >= 0, o.Indent > 0
    ensures stmt_text(cat(d), s, depth, o) == cat(d + q_stmt(s, depth, o))
    decreases s, 0nat
{
    let x = s->0;
    assert(ext_of(o, x) is None);
    if is_comment(x) { lemma_q_comment(d, x.Comment->0); }
    else {
        lemma_q_head(d, x);
        let h = d + q_head(x);
        if !x.Block.nn {
            lits_ax(); assert(lit!(";") =~= seq![59u8]); lemma_lit1(59);
            lemma_qcat(h, seq![59int]);
            assert(d + (q_head(x) + seq![59int]) =~= h + seq![59int]);
        } else {
            let n = x.Block.s.len() as int;
            let q = q_body(x.Block.s, n, false, depth + 1, x.Line, o);
            lemma_q_open(d, x, q, o, depth); lemma_q_block(x, depth, o); lemma_text_block(cat(d), x, depth, o);
            lemma_q_list(h + seq![32int, 123], x.Block.s, n, false, depth + 1, x.Line, o);
        }
    }
}
pub proof fn lemma_q_list(d: Seq<int>, b: Seq<Option<Directive>>, k: int, top: bool, depth: int, line: int, o: BuildOptions)
    requires fine_list(b, line, o), no_builders(o), depth >= 0, o.Indent > 0, 0 <= k <= b.len()
    ensures body_text(cat(d), b, k, top, depth, line, o) == cat(d + q_body(b, k, top, depth, line, o))
    decreases b, k
{
    lemma_body0(cat(d), b, top, depth, line, o);
    if k == 0 { reveal(q_body); assert(d + q_body(b, k, top, depth, line, o) =~= d); }
    else {
        lemma_q_list(d, b, k - 1, top, depth, line, o);
        lemma_q_body(b, k - 1, top, depth, line, o);
        assert(fine_dir(b[k - 1], o));
        lemma_body(cat(d), b, k - 1, top, depth, line, o);
        let p = q_body(b, k - 1, top, depth, line, o); let x = b[k - 1]->0;
        let e = q_piece(b, k - 1, top, depth, line, o);
        if same_line(b, k - 1, line, o) {
            lemma_q_comment(d + p, x.Comment->0);
            assert(d + (p + e) =~= d + p + e);
        } else {
            let nl = if k == 1 && top { Seq::<int>::empty() } else { seq![10int] };
            let d1 = d + p + nl;
            if k == 1 && top { assert(d1 =~= d + p); } else { lits_ax(); assert(lit!("\n") =~= seq![10u8]); lemma_lit1(10); lemma_qcat(d + p, seq![10int]); }
            lemma_q_indent(d1, o, depth);
            lemma_q_stmt(d1 + q_indent(o, depth), b[k - 1], depth, o);
            let q = q_stmt(b[k - 1], depth, o);
            assert(d + (p + e) =~= d1 + q_indent(o, depth) + q);
        }
    }
}
