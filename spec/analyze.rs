// ---- NGINX's directive rules (independent of the code's own tables) ----

pub open spec fn valid_flag(s: S) -> bool { to_lower(s) == lit!("on") || to_lower(s) == lit!("off") }

// "(" expr ")" spread over the arguments
pub open spec fn valid_expr(a: Seq<S>) -> bool {
    &&& a.len() > 0
    &&& has_prefix(a[0], lit!("("))
    &&& has_suffix(a.last(), lit!(")"))
    &&& (a.len() == 1 ==> a[0].len() > 2)
    &&& (a.len() == 2 ==> a[0].len() > 1 || a[1].len() > 1)
}

pub open spec fn bit(mask: u64, b: u64) -> bool { (mask & b) != 0 }

// argument count and on/off value (NOARGS .. TAKE7, ANY, 1MORE, 2MORE, FLAG)
pub open spec fn args_fit(mask: u64, a: Seq<S>) -> bool {
    ||| (a.len() <= 7 && (shr64(mask, a.len() as int) & 1) != 0)
    ||| (bit(mask, 0x400) && a.len() == 1 && valid_flag(a[0]))
    ||| bit(mask, 0x800)
    ||| (bit(mask, 0x1000) && a.len() >= 1)
    ||| (bit(mask, 0x2000) && a.len() >= 2)
}

// one rule permits the statement's form
pub open spec fn rule_fits(mask: u64, a: Seq<S>, term: S) -> bool {
    &&& (bit(mask, 0x200) ==> valid_expr(a))
    &&& (bit(mask, 0x100) ==> term == lit!("{"))
    &&& (!bit(mask, 0x100) ==> term == lit!(";"))
    &&& args_fit(mask, a)
}

pub open spec fn ctx_key(c: Seq<S>) -> S { str_join(c, lit!(">")) }

// context bits of the block paths NGINX defines; 0: path unknown
pub open spec fn ctx_bits(k: S) -> u64 {
    if k == sempty() { 0x40000 }
    else if k == lit!("events") { 0x80000 }
    else if k == lit!("mail") { 0x100000 }
    else if k == lit!("mail>server") { 0x200000 }
    else if k == lit!("stream") { 0x400000 }
    else if k == lit!("stream>server") { 0x800000 }
    else if k == lit!("stream>upstream") { 0x1000000 }
    else if k == lit!("http") { 0x2000000 }
    else if k == lit!("http>server") { 0x4000000 }
    else if k == lit!("http>location") { 0x8000000 }
    else if k == lit!("http>upstream") { 0x10000000 }
    else if k == lit!("http>server>if") { 0x20000000 }
    else if k == lit!("http>location>if") { 0x40000000 }
    else if k == lit!("http>location>limit_except") { 0x80000000 }
    else if k == lit!("http>oidc_provider") { 0x100000000 }
    else if k == lit!("mgmt") { 0x20000 }
    else { 0 }
}
pub open spec fn ctx_known(k: S) -> bool { ctx_bits(k) != 0 }

// directive sources
pub uninterp spec fn match_masks(f: Opq, name: S) -> Sl<u64>;
pub uninterp spec fn match_found(f: Opq, name: S) -> bool;
pub open spec fn default_masks(name: S) -> Sl<u64> { mp_get(glob!("crossplane.defaultDirectives"), name, sl_nil::<u64>()) }
pub open spec fn default_found(name: S) -> bool { glob!("crossplane.defaultDirectives").m.contains_key(name) }

pub open spec fn src_masks(fs: Seq<Opq>, name: S) -> Seq<u64> decreases fs.len() {
    if fs.len() == 0 { Seq::<u64>::empty() }
    else {
        src_masks(fs.drop_last(), name)
            + (if match_found(fs.last(), name) { match_masks(fs.last(), name).s } else { Seq::<u64>::empty() })
    }
}
pub open spec fn src_known(fs: Seq<Opq>, name: S) -> bool { exists|i: int| 0 <= i < fs.len() && match_found(#[trigger] fs[i], name) }

pub open spec fn all_masks(fs: Seq<Opq>, name: S) -> Seq<u64> {
    if fs.len() == 0 { default_masks(name).s } else { src_masks(fs, name) }
}
pub open spec fn is_known(fs: Seq<Opq>, name: S) -> bool {
    if fs.len() == 0 { default_found(name) } else { src_known(fs, name) }
}

pub open spec fn permits(mask: u64, k: S, a: Seq<S>, term: S, o: ParseOptions) -> bool {
    &&& (!o.SkipDirectiveContextCheck ==> bit(mask, ctx_bits(k)))
    &&& (!o.SkipDirectiveArgsCheck ==> rule_fits(mask, a, term))
}

// some rule permits both the context and the form
pub open spec fn any_permits(ms: Seq<u64>, k: S, a: Seq<S>, term: S, o: ParseOptions) -> bool {
    exists|i: int| 0 <= i < ms.len() && permits(#[trigger] ms[i], k, a, term, o)
}

pub open spec fn accepts(name: S, a: Seq<S>, term: S, ctx: Seq<S>, o: ParseOptions) -> bool {
    let fs = o.DirectiveSources.s;
    let k = ctx_key(ctx);
    if term == lit!("}") { false }
    else if !is_known(fs, name) { !o.ErrorOnUnknownDirectives }
    else if !ctx_known(k) { true }
    else if o.SkipDirectiveContextCheck && o.SkipDirectiveArgsCheck { true }
    else { any_permits(all_masks(fs, name), k, a, term, o) }
}

// the name an error reports for a block path
pub open spec fn last_block(c: Seq<S>) -> S { if c.len() == 0 { lit!("main") } else { c.last() } }

pub open spec fn perr(fname: S, line: Option<int>, block: S, orig: GoErr) -> GoErr {
    GoErr::PE(Box::new(ParseError { What: (), File: Some(fname), Line: line, Statement: (), BlockCtx: block, originalErr: orig }))
}
pub open spec fn err_at(e: GoErr, fname: S, line: int, block: S) -> bool { e == perr(fname, Some(line), block, GoErr::Nil) }

// entering a block
pub open spec fn enter_ctx(name: S, c: Seq<S>) -> Seq<S> {
    if c.len() > 0 && c[0] == lit!("http") && name == lit!("location") { seq![lit!("http"), lit!("location")] }
    else { c.push(name) }
}

// ---- if conditions ----
pub open spec fn trim_l(s: S) -> S { trim_left_func(s, fnc!("unicode.IsSpace")) }
pub open spec fn trim_r(s: S) -> S { trim_right_func(s, fnc!("unicode.IsSpace")) }
pub open spec fn keep(s: S) -> Seq<S> { if s.len() == 0 { Seq::<S>::empty() } else { seq![s] } }

pub open spec fn if_args(a: Seq<S>) -> Seq<S> {
    if a.len() > 0 && has_prefix(a[0], lit!("(")) && has_suffix(a.last(), lit!(")")) {
        if a.len() == 1 {
            keep(trim_r(trim_suffix(trim_l(trim_prefix(a[0], lit!("("))), lit!(")"))))
        } else {
            keep(trim_l(trim_prefix(a[0], lit!("("))))
                + a.subrange(1, a.len() - 1)
                + keep(trim_r(trim_suffix(a.last(), lit!(")"))))
        }
    } else { a }
}

// ---- lemmas ----
pub proof fn lemma_src_step(fs: Seq<Opq>, i: int, name: S)
    requires 0 <= i < fs.len()
    ensures
        src_masks(fs.subrange(0, i + 1), name) == src_masks(fs.subrange(0, i), name)
            + (if match_found(fs[i], name) { match_masks(fs[i], name).s } else { Seq::<u64>::empty() }),
        src_known(fs.subrange(0, i + 1), name) == (src_known(fs.subrange(0, i), name) || match_found(fs[i], name)),
{
    let a = fs.subrange(0, i + 1);
    let b = fs.subrange(0, i);
    assert(a.drop_last() =~= b);
    assert(a.last() == fs[i]);
    if src_known(b, name) {
        let j = choose|j: int| 0 <= j < b.len() && match_found(#[trigger] b[j], name);
        assert(a[j] == b[j]);
    }
    if match_found(fs[i], name) { assert(a[i] == fs[i]); }
    if src_known(a, name) {
        let j = choose|j: int| 0 <= j < a.len() && match_found(#[trigger] a[j], name);
        if j < i { assert(b[j] == a[j]); }
    }
}

// the code's table of contexts is NGINX's
pub proof fn lemma_contexts(k: S)
    ensures
        mp_get(glob!("crossplane.contexts"), k, 0u64) == ctx_bits(k),
        glob!("crossplane.contexts").m.contains_key(k) == ctx_known(k),
{
    lits_ax();
}

pub open spec fn ctx_filter(ms: Seq<u64>, b: u64) -> Seq<u64> decreases ms.len() {
    if ms.len() == 0 { ms }
    else if bit(ms.last(), b) { ctx_filter(ms.drop_last(), b).push(ms.last()) }
    else { ctx_filter(ms.drop_last(), b) }
}
pub open spec fn any_fits(ms: Seq<u64>, a: Seq<S>, term: S) -> bool { exists|i: int| 0 <= i < ms.len() && rule_fits(#[trigger] ms[i], a, term) }
pub open spec fn any_bit(ms: Seq<u64>, b: u64) -> bool { exists|i: int| 0 <= i < ms.len() && bit(#[trigger] ms[i], b) }
pub open spec fn any_both(ms: Seq<u64>, b: u64, a: Seq<S>, term: S) -> bool {
    exists|i: int| 0 <= i < ms.len() && bit(#[trigger] ms[i], b) && rule_fits(ms[i], a, term)
}
pub proof fn lemma_filter(ms: Seq<u64>, b: u64, a: Seq<S>, term: S)
    ensures
        any_fits(ctx_filter(ms, b), a, term) == any_both(ms, b, a, term),
        (ctx_filter(ms, b).len() > 0) == any_bit(ms, b),
    decreases ms.len()
{
    if ms.len() > 0 {
        let p = ms.drop_last();
        lemma_filter(p, b, a, term);
        let f = ctx_filter(p, b);
        let g = ctx_filter(ms, b);
        let n = ms.len() - 1;
        if any_both(p, b, a, term) { let i = choose|i: int| 0 <= i < p.len() && bit(#[trigger] p[i], b) && rule_fits(p[i], a, term); assert(ms[i] == p[i]); }
        if any_bit(p, b) { let i = choose|i: int| 0 <= i < p.len() && bit(#[trigger] p[i], b); assert(ms[i] == p[i]); }
        if any_both(ms, b, a, term) {
            let i = choose|i: int| 0 <= i < ms.len() && bit(#[trigger] ms[i], b) && rule_fits(ms[i], a, term);
            if i < n { assert(p[i] == ms[i]); } else { assert(g[f.len() as int] == ms[i]); }
        }
        if any_bit(ms, b) { let i = choose|i: int| 0 <= i < ms.len() && bit(#[trigger] ms[i], b); if i < n { assert(p[i] == ms[i]); } }
        if bit(ms.last(), b) {
            assert(ms[n] == ms.last());
            if any_fits(f, a, term) { let i = choose|i: int| 0 <= i < f.len() && rule_fits(#[trigger] f[i], a, term); assert(g[i] == f[i]); }
            if any_fits(g, a, term) {
                let i = choose|i: int| 0 <= i < g.len() && rule_fits(#[trigger] g[i], a, term);
                if i < f.len() { assert(f[i] == g[i]); }
            }
        }
    }
}

// accepting in terms of the filtered rules the code keeps
pub proof fn lemma_accept(ms: Seq<u64>, k: S, a: Seq<S>, term: S, o: ParseOptions)
    ensures
        !o.SkipDirectiveContextCheck && !o.SkipDirectiveArgsCheck ==> any_permits(ms, k, a, term, o) == any_fits(ctx_filter(ms, ctx_bits(k)), a, term),
        !o.SkipDirectiveContextCheck && !o.SkipDirectiveArgsCheck && any_permits(ms, k, a, term, o) ==> ctx_filter(ms, ctx_bits(k)).len() > 0,
        !o.SkipDirectiveContextCheck && o.SkipDirectiveArgsCheck ==> any_permits(ms, k, a, term, o) == (ctx_filter(ms, ctx_bits(k)).len() > 0),
        o.SkipDirectiveContextCheck && !o.SkipDirectiveArgsCheck ==> any_permits(ms, k, a, term, o) == any_fits(ms, a, term),
{
    let b = ctx_bits(k);
    lemma_filter(ms, b, a, term);
    if any_permits(ms, k, a, term, o) {
        let i = choose|i: int| 0 <= i < ms.len() && permits(#[trigger] ms[i], k, a, term, o);
        if !o.SkipDirectiveContextCheck { assert(bit(ms[i], b)); assert(any_bit(ms, b)); }
        if !o.SkipDirectiveArgsCheck { assert(rule_fits(ms[i], a, term)); assert(any_fits(ms, a, term)); }
        if !o.SkipDirectiveContextCheck && !o.SkipDirectiveArgsCheck { assert(any_both(ms, b, a, term)); }
    }
    if any_fits(ms, a, term) {
        let i = choose|i: int| 0 <= i < ms.len() && rule_fits(#[trigger] ms[i], a, term);
        assert(o.SkipDirectiveContextCheck && !o.SkipDirectiveArgsCheck ==> permits(ms[i], k, a, term, o));
    }
    if any_bit(ms, b) {
        let i = choose|i: int| 0 <= i < ms.len() && bit(#[trigger] ms[i], b);
        assert(!o.SkipDirectiveContextCheck && o.SkipDirectiveArgsCheck ==> permits(ms[i], k, a, term, o));
    }
    if any_both(ms, b, a, term) {
        let i = choose|i: int| 0 <= i < ms.len() && bit(#[trigger] ms[i], b) && rule_fits(ms[i], a, term);
        assert(!o.SkipDirectiveContextCheck && !o.SkipDirectiveArgsCheck ==> permits(ms[i], k, a, term, o));
    }
}
pub proof fn lemma_filter_step(ms: Seq<u64>, i: int, b: u64)
    requires 0 <= i < ms.len()
    ensures ctx_filter(ms.subrange(0, i + 1), b) == (if bit(ms[i], b) { ctx_filter(ms.subrange(0, i), b).push(ms[i]) } else { ctx_filter(ms.subrange(0, i), b) })
{
    assert(ms.subrange(0, i + 1).drop_last() =~= ms.subrange(0, i));
}
