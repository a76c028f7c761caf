// ---- what a built configuration looks like ----

// strings quoted when needed
pub open spec fn repr_text(s: S) -> S {
    let q = go_quote(s);
    if runes(s).contains(34) {
        lit!("'") + replace_all(replace_all(q, lit!("\\\""), lit!("\"")), lit!("'"), lit!("\\'")).subrange(1,
            replace_all(replace_all(q, lit!("\\\""), lit!("\"")), lit!("'"), lit!("\\'")).len() - 1) + lit!("'")
    } else { q }
}
pub open spec fn enq(s: S) -> S { if needs_quote(s) { replace_all(repr_text(s), lit!("\\\\"), lit!("\\")) } else { s } }

pub uninterp spec fn ext_build(b: Opq, d: Directive) -> S;

pub open spec fn is_comment(d: Directive) -> bool { d.Directive == lit!("#") && d.Comment is Some }
pub open spec fn ext_of(o: BuildOptions, d: Directive) -> Option<Opq> {
    if o.extBuilders.nn && o.extBuilders.m.contains_key(d.Directive) { Some(o.extBuilders.m[d.Directive]) } else { None }
}
pub open spec fn indent_text(o: BuildOptions, depth: int) -> S {
    if o.Tabs { str_repeat(lit!("\t"), depth) } else { str_repeat(lit!(" "), depth * o.Indent) }
}
// The text functions below append to the text written so far (d).
// arguments, separated by single spaces; a quoted argument of an if also has a blank between the parenthesis and the quote
pub open spec fn args_text(d: S, a: Seq<S>, k: int) -> S decreases k {
    if k <= 0 { d } else { args_text(d, a, k - 1) + lit!(" ") + enq(a[k - 1]) }
}
pub open spec fn cond_text(d: S, a: Seq<S>, k: int) -> S decreases k {
    if k <= 0 { d } else if k == 1 && !needs_quote(a[0]) { d + enq(a[0]) } else { cond_text(d, a, k - 1) + lit!(" ") + enq(a[k - 1]) }
}
pub open spec fn head_text(d: S, x: Directive) -> S {
    if enq(x.Directive) == lit!("if") && !x.IsMapBlockParameter { cond_text(d + enq(x.Directive) + lit!(" ("), x.Args.s, x.Args.s.len() as int) + lit!(")") }
    else { args_text(d + enq(x.Directive), x.Args.s, x.Args.s.len() as int) }
}
// one statement, from its first character to its end
pub open spec fn stmt_text(d: S, s: Option<Directive>, depth: int, o: BuildOptions) -> S
    decreases s, 0nat
{
    match s { None => d, Some(x) =>
        if ext_of(o, x) is Some { d + ext_build(ext_of(o, x)->0, x) }
        else if is_comment(x) { d + lit!("#") + x.Comment->0 }
        else if !x.Block.nn { head_text(d, x) + lit!(";") }
        else { body_text(head_text(d, x) + lit!(" {"), x.Block.s, x.Block.s.len() as int, false, depth + 1, x.Line, o) + lit!("\n") + indent_text(o, depth) + lit!("}") }
    }
}
// the first k statements of a body; top: not inside braces; line: line of the opening brace
#[verifier::opaque]
pub open spec fn body_text(d: S, b: Seq<Option<Directive>>, k: int, top: bool, depth: int, line: int, o: BuildOptions) -> S
    decreases b, k
{
    if k <= 0 || k > b.len() { d }
    else {
        let p = body_text(d, b, k - 1, top, depth, line, o);
        if b[k - 1] is Some && is_comment(b[k - 1]->0) && b[k - 1]->0.Line == last_line(b, k - 1, line, o) { p + lit!(" #") + b[k - 1]->0.Comment->0 }
        else { stmt_text((if k == 1 && top { p } else { p + lit!("\n") }) + indent_text(o, depth), b[k - 1], depth, o) }
    }
}
// line of the statement before the k-th, as far as it was written by this package on a line of its own
#[verifier::opaque]
pub open spec fn last_line(b: Seq<Option<Directive>>, k: int, line: int, o: BuildOptions) -> int
    decreases k
{
    if k <= 0 || k > b.len() || b[k - 1] is None { line }
    else {
        let p = last_line(b, k - 1, line, o); let d = b[k - 1]->0;
        if is_comment(d) && d.Line == p || ext_of(o, d) is Some { p } else { d.Line }
    }
}
// builders: the last registration of a name wins
pub open spec fn reg_names(m: Map<S, Opq>, b: Opq, names: Seq<S>) -> Map<S, Opq> decreases names.len() {
    if names.len() == 0 { m } else { reg_names(m, b, names.drop_last()).insert(names.last(), b) }
}
pub open spec fn reg_builders(m: Mp<S, Opq>, l: Seq<registerBuilder>) -> Mp<S, Opq> decreases l.len() {
    if l.len() == 0 { m } else { Mp { m: reg_names(mp_live(reg_builders(m, l.drop_last())), l.last().b, l.last().directives.s), nn: true } }
}
pub open spec fn final_options(o: BuildOptions) -> BuildOptions {
    BuildOptions { Indent: if o.Indent == 0 { 4 } else { o.Indent }, extBuilders: if o.extBuilders.nn { o.extBuilders } else { reg_builders(o.extBuilders, o.Builders.s) }, ..o }
}
pub open spec fn chop(s: S) -> S { if s.len() > 0 && s.last() == 10u8 { s.drop_last() } else { s } }
pub open spec fn built_body(c: Config, o: BuildOptions) -> S { chop(body_text(sempty(), c.Parsed.s, c.Parsed.s.len() as int, true, 0, 0, o)) }
pub open spec fn built(c: Config, o: BuildOptions) -> S {
    (if o.Header { lit!("# This config was built from JSON using NGINX crossplane.\n# If you encounter any bugs please report them here:\n# https://github.com/nginxinc/crossplane/issues\n\n") } else { sempty() })
        + built_body(c, final_options(o))
}

pub proof fn lemma_repeat(c: S, n: int, k: int)
    requires 0 <= k <= n, c.len() == 1
    ensures str_repeat(c, n).len() == n, str_repeat(c, n).subrange(0, k) == str_repeat(c, k)
    decreases n
{
    if n > 0 {
        lemma_repeat(c, n - 1, if k < n { k } else { n - 1 });
        if k < n { assert(str_repeat(c, n).subrange(0, k) =~= str_repeat(c, n - 1).subrange(0, k)); }
        else { assert(str_repeat(c, n).subrange(0, k) =~= str_repeat(c, n)); }
    } else { assert(str_repeat(c, n).subrange(0, k) =~= str_repeat(c, k)); }
}
pub proof fn lemma_mul(depth: int, indent: int)
    requires depth >= 0, indent > 0
    ensures depth * indent >= depth, indent * depth == depth * indent
{
    assert(depth * indent >= depth && indent * depth == depth * indent) by (nonlinear_arith) requires depth >= 0, indent > 0;
}
pub open spec fn piece(d: S, b: Seq<Option<Directive>>, k: int, top: bool, depth: int, line: int, o: BuildOptions) -> S {
    if is_comment(b[k]->0) && b[k]->0.Line == last_line(b, k, line, o) { d + lit!(" #") + b[k]->0.Comment->0 }
    else { stmt_text((if k == 0 && top { d } else { d + lit!("\n") }) + indent_text(o, depth), b[k], depth, o) }
}
pub proof fn lemma_body(d: S, b: Seq<Option<Directive>>, k: int, top: bool, depth: int, line: int, o: BuildOptions)
    requires 0 <= k < b.len(), b[k] is Some
    ensures body_text(d, b, k + 1, top, depth, line, o) == piece(body_text(d, b, k, top, depth, line, o), b, k, top, depth, line, o),
        last_line(b, k + 1, line, o) == (if is_comment(b[k]->0) && b[k]->0.Line == last_line(b, k, line, o) || ext_of(o, b[k]->0) is Some { last_line(b, k, line, o) } else { b[k]->0.Line }),
{ reveal(body_text); reveal(last_line); }
pub proof fn lemma_body0(d: S, b: Seq<Option<Directive>>, top: bool, depth: int, line: int, o: BuildOptions)
    ensures body_text(d, b, 0, top, depth, line, o) == d, last_line(b, 0, line, o) == line
{ reveal(body_text); reveal(last_line); }
pub proof fn lemma_builders(m: Mp<S, Opq>, l: Seq<registerBuilder>, k: int)
    requires 0 <= k < l.len()
    ensures reg_builders(reg_builders(m, l.subrange(0, k)), seq![l[k]]) == reg_builders(m, l.subrange(0, k + 1))
{
    assert(l.subrange(0, k + 1).drop_last() =~= l.subrange(0, k));
    let a = reg_builders(m, l.subrange(0, k));
    assert(seq![l[k]].drop_last() =~= Seq::empty());
    assert(reg_builders(a, seq![l[k]].drop_last()) == a);
    assert(l.subrange(0, k + 1).last() == l[k]);
    assert(seq![l[k]].last() == l[k]);
}
