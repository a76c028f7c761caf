// ---- combining configs (C11) ----
// the directives a block expands to, up to the first error
pub struct Ex { pub ds: Seq<Option<Directive>>, pub err: GoErr }
pub open spec fn no_ex() -> Ex { Ex { ds: Seq::empty(), err: GoErr::Nil } }
pub open spec fn then(a: Ex, b: Ex) -> Ex { if a.err is Nil { Ex { ds: a.ds + b.ds, err: b.err } } else { a } }
pub open spec fn is_inc(d: Directive) -> bool { d.Directive == lit!("include") && d.Includes.nn }
pub open spec fn has_conf(p: Payload, i: int) -> bool { 0 <= i < p.Config.s.len() }
// no chain of includes from these directives is longer than n
pub open spec fn chain1(p: Payload, a: Option<Directive>, n: nat) -> bool decreases n, a, 0nat {
    a is Some && chains(p, a->0.Block.s, n) && (is_inc(a->0) ==> forall|i: int| 0 <= i < a->0.Includes.s.len() && has_conf(p, #[trigger] a->0.Includes.s[i]) ==> n > 0 && chains(p, p.Config.s[a->0.Includes.s[i]].Parsed.s, (n - 1) as nat))
}
pub open spec fn chains(p: Payload, b: Seq<Option<Directive>>, n: nat) -> bool decreases n, b, b.len() + 1 {
    forall|i: int| 0 <= i < b.len() ==> chain1(p, #[trigger] b[i], n)
}
// includes do not lead back to where they started
pub open spec fn finite_includes(p: Payload, b: Seq<Option<Directive>>) -> bool { exists|n: nat| chains(p, b, n) }

// the first k directives of a block, expanded
pub open spec fn ex_block(p: Payload, from: S, b: Seq<Option<Directive>>, k: int, n: nat) -> Ex decreases n, b, k {
    if k <= 0 || k > b.len() { no_ex() } else { then(ex_block(p, from, b, k - 1, n), ex_dir(p, from, b[k - 1], n)) }
}
pub open spec fn ex_dir(p: Payload, from: S, a: Option<Directive>, n: nat) -> Ex decreases n, a, 0int {
    match a { None => no_ex(), Some(d) => {
        let nb = if d.Block.nn { ex_block(p, from, d.Block.s, d.Block.s.len() as int, n) } else { no_ex() };
        if !(nb.err is Nil) { Ex { ds: Seq::empty(), err: nb.err } }
        else if is_inc(d) { ex_incs(p, from, d, d.Includes.s.len() as int, n) }
        else { Ex { ds: Seq::<Option<Directive>>::empty().push(Some(if d.Block.nn { Directive { Block: Sl { s: nb.ds, nn: true }, ..d } } else { d })), err: GoErr::Nil } }
    } }
}
// the configs an include lists, expanded in its place
pub open spec fn ex_incs(p: Payload, from: S, d: Directive, k: int, n: nat) -> Ex decreases n, d, k {
    if k <= 0 { no_ex() } else { then(ex_incs(p, from, d, k - 1, n), ex_inc(p, from, d, d.Includes.s[k - 1], n)) }
}
pub open spec fn ex_inc(p: Payload, from: S, d: Directive, i: int, n: nat) -> Ex decreases n, d, 0int {
    if !has_conf(p, i) { Ex { ds: Seq::empty(), err: perr(from, Some(d.Line), sempty(), GoErr::Nil) } }
    else if n == 0 { no_ex() }
    else { ex_block(p, p.Config.s[i].File, p.Config.s[i].Parsed.s, p.Config.s[i].Parsed.s.len() as int, (n - 1) as nat) }
}
pub open spec fn expanded(p: Payload, from: S, b: Seq<Option<Directive>>) -> Ex { ex_block(p, from, b, b.len() as int, level(p, b)) }
// the length of the longest chain
pub open spec fn level(p: Payload, b: Seq<Option<Directive>>) -> nat { choose|n: nat| is_level(p, b, n) }
pub open spec fn is_level(p: Payload, b: Seq<Option<Directive>>, n: nat) -> bool { chains(p, b, n) && (n == 0 || !chains(p, b, (n - 1) as nat)) }

// what a reader of the channel has after the first k elements
pub open spec fn took(buf: Seq<included>, k: int) -> Ex decreases k {
    if k <= 0 || k > buf.len() { no_ex() } else { then(took(buf, k - 1), took1(buf[k - 1])) }
}
pub open spec fn took1(i: included) -> Ex { if i.err is Nil { Ex { ds: Seq::<Option<Directive>>::empty().push(i.directive), err: GoErr::Nil } } else { Ex { ds: Seq::empty(), err: i.err } } }
pub open spec fn read_all(c: Ch<included>) -> Ex { took(c.buf, c.buf.len() as int) }

// C11: the combined payload
pub open spec fn all_errs(cs: Seq<Config>, k: int) -> Seq<ConfigError> decreases k {
    if k <= 0 || k > cs.len() { Seq::empty() } else { all_errs(cs, k - 1) + cs[k - 1].Errors.s }
}
pub open spec fn any_failed(cs: Seq<Config>, k: int) -> bool { exists|i: int| 0 <= i < k && (#[trigger] cs[i]).Status == lit!("failed") }
pub open spec fn combined_of(p: Payload) -> Payload {
    let cs = p.Config.s; let x = expanded(p, cs[0].File, cs[0].Parsed.s);
    Payload {
        Status: if p.Status.len() == 0 { lit!("ok") } else { p.Status },
        Errors: if p.Errors.nn { p.Errors } else { Sl { s: Seq::empty(), nn: true } },
        Config: sl_of(Seq::<Config>::empty().push(Config {
            File: cs[0].File, Status: if any_failed(cs, cs.len() as int) { lit!("failed") } else { lit!("ok") },
            Errors: Sl { s: all_errs(cs, cs.len() as int), nn: true }, Parsed: Sl { s: x.ds, nn: true } })),
    }
}
pub open spec fn combines_to(p: Payload, r: Option<Payload>, e: GoErr) -> bool {
    if p.Config.s.len() == 0 { r == Some(p) && e is Nil }
    else { let x = expanded(p, p.Config.s[0].File, p.Config.s[0].Parsed.s); if x.err is Nil { r == Some(combined_of(p)) && e is Nil } else { r is None && e == x.err } }
}

proof fn lemma_then(a: Ex, b: Ex, c: Ex)
    ensures then(then(a, b), c) == then(a, then(b, c)), then(a, no_ex()) == a, then(no_ex(), a) == a
{
    assert((a.ds + b.ds) + c.ds =~= a.ds + (b.ds + c.ds)); assert(a.ds + Seq::<Option<Directive>>::empty() =~= a.ds); assert(Seq::<Option<Directive>>::empty() + a.ds =~= a.ds);
}
pub proof fn lemma_took(buf: Seq<included>, x: included)
    ensures took(buf.push(x), buf.len() as int + 1) == then(took(buf, buf.len() as int), took1(x))
{
    lemma_took_same(buf, x, buf.len() as int);
}
proof fn lemma_took_same(buf: Seq<included>, x: included, k: int)
    requires k <= buf.len()
    ensures took(buf.push(x), k) == took(buf, k)
    decreases k
{ if k > 0 { lemma_took_same(buf, x, k - 1); assert(buf.push(x)[k - 1] == buf[k - 1]); } }

// a longer bound expands to the same
pub proof fn lemma_chains(p: Payload, from: S, b: Seq<Option<Directive>>, k: int, n: nat, m: nat)
    requires chains(p, b, n), n <= m
    ensures chains(p, b, m), ex_block(p, from, b, k, n) == ex_block(p, from, b, k, m)
    decreases n, b, k, 0nat
{
    assert forall|i: int| 0 <= i < b.len() implies chain1(p, #[trigger] b[i], m) by { assert(chain1(p, b[i], n)); lemma_chain1(p, from, b[i], n, m); }
    if 0 < k <= b.len() { lemma_chains(p, from, b, k - 1, n, m); assert(chain1(p, b[k - 1], n)); lemma_chain1(p, from, b[k - 1], n, m); }
}
proof fn lemma_chain1(p: Payload, from: S, a: Option<Directive>, n: nat, m: nat)
    requires chain1(p, a, n), n <= m
    ensures chain1(p, a, m), ex_dir(p, from, a, n) == ex_dir(p, from, a, m)
    decreases n, a, 0int, 0nat
{
    let d = a->0;
    lemma_chains(p, from, d.Block.s, d.Block.s.len() as int, n, m);
    if is_inc(d) {
        assert forall|i: int| 0 <= i < d.Includes.s.len() && has_conf(p, #[trigger] d.Includes.s[i]) implies m > 0 && chains(p, p.Config.s[d.Includes.s[i]].Parsed.s, (m - 1) as nat) by {
            let c = p.Config.s[d.Includes.s[i]];
            lemma_chains(p, c.File, c.Parsed.s, c.Parsed.s.len() as int, (n - 1) as nat, (m - 1) as nat);
        }
        lemma_ex_incs(p, from, d, d.Includes.s.len() as int, n, m);
    }
}
proof fn lemma_ex_incs(p: Payload, from: S, d: Directive, k: int, n: nat, m: nat)
    requires n <= m, k <= d.Includes.s.len(), forall|i: int| 0 <= i < d.Includes.s.len() && has_conf(p, #[trigger] d.Includes.s[i]) ==> n > 0 && chains(p, p.Config.s[d.Includes.s[i]].Parsed.s, (n - 1) as nat)
    ensures ex_incs(p, from, d, k, n) == ex_incs(p, from, d, k, m)
    decreases n, d, k, 0nat
{
    if k > 0 {
        lemma_ex_incs(p, from, d, k - 1, n, m);
        let i = d.Includes.s[k - 1];
        assert(ex_incs(p, from, d, k, n) == then(ex_incs(p, from, d, k - 1, n), ex_inc(p, from, d, i, n)));
        assert(ex_incs(p, from, d, k, m) == then(ex_incs(p, from, d, k - 1, m), ex_inc(p, from, d, i, m)));
        if has_conf(p, i) { let c = p.Config.s[i]; lemma_chains(p, c.File, c.Parsed.s, c.Parsed.s.len() as int, (n - 1) as nat, (m - 1) as nat); }
    }
}
pub proof fn lemma_level(p: Payload, b: Seq<Option<Directive>>, n: nat)
    requires chains(p, b, n)
    ensures is_level(p, b, level(p, b)), level(p, b) <= n
{
    lemma_some_level(p, b, n);
    let l = level(p, b);
    if n < l { lemma_chains(p, sempty(), b, 0, n, (l - 1) as nat); }
}
proof fn lemma_some_level(p: Payload, b: Seq<Option<Directive>>, n: nat)
    requires chains(p, b, n)
    ensures exists|l: nat| is_level(p, b, l)
    decreases n
{ if n > 0 && chains(p, b, (n - 1) as nat) { lemma_some_level(p, b, (n - 1) as nat); } else { assert(is_level(p, b, n)); } }
pub proof fn lemma_expanded(p: Payload, from: S, b: Seq<Option<Directive>>, n: nat)
    requires chains(p, b, n)
    ensures expanded(p, from, b) == ex_block(p, from, b, b.len() as int, n), level(p, b) <= n
{ lemma_level(p, b, n); lemma_chains(p, from, b, b.len() as int, level(p, b), n); }
// the directive at position i: what its block and its includes expand to
pub proof fn lemma_ex(p: Payload, from: S, b: Seq<Option<Directive>>, i: int)
    requires finite_includes(p, b), 0 <= i < b.len()
    ensures b[i] is Some, is_level(p, b, level(p, b)), finite_includes(p, b[i]->0.Block.s), level(p, b[i]->0.Block.s) <= level(p, b),
        expanded(p, from, b[i]->0.Block.s) == ex_block(p, from, b[i]->0.Block.s, b[i]->0.Block.s.len() as int, level(p, b)),
        dsizes_to(b[i]->0.Block.s, b[i]->0.Block.s.len() as int) < dsizes_to(b, b.len() as int),
{
    let n = choose|n: nat| chains(p, b, n); lemma_level(p, b, n);
    let l = level(p, b); assert(chain1(p, b[i], l));
    lemma_expanded(p, from, b[i]->0.Block.s, l); lemma_dsize(b, i); assert(chains(p, b[i]->0.Block.s, l)); assert(dsize(b[i]) == 1 + dsizes_to(b[i]->0.Block.s, b[i]->0.Block.s.len() as int));
}
pub proof fn lemma_ex_inc(p: Payload, b: Seq<Option<Directive>>, i: int, j: int)
    requires finite_includes(p, b), 0 <= i < b.len(), is_inc(b[i]->0), 0 <= j < b[i]->0.Includes.s.len(), has_conf(p, b[i]->0.Includes.s[j])
    ensures ({ let c = p.Config.s[b[i]->0.Includes.s[j]]; level(p, b) > 0 && finite_includes(p, c.Parsed.s) && level(p, c.Parsed.s) < level(p, b)
        && expanded(p, c.File, c.Parsed.s) == ex_block(p, c.File, c.Parsed.s, c.Parsed.s.len() as int, (level(p, b) - 1) as nat) })
{
    let n = choose|n: nat| chains(p, b, n); lemma_level(p, b, n);
    let l = level(p, b); assert(chain1(p, b[i], l));
    let c = p.Config.s[b[i]->0.Includes.s[j]]; lemma_expanded(p, c.File, c.Parsed.s, (l - 1) as nat);
}

proof fn lemma_took_err(buf: Seq<included>, k: int)
    requires 0 <= k <= buf.len(), !(took(buf, k).err is Nil)
    ensures took(buf, buf.len() as int) == took(buf, k)
    decreases buf.len() - k
{ if k < buf.len() { lemma_took_err(buf, k + 1); } }
proof fn lemma_ex_block_err(p: Payload, from: S, b: Seq<Option<Directive>>, k: int, n: nat)
    requires 0 <= k <= b.len(), !(ex_block(p, from, b, k, n).err is Nil)
    ensures ex_block(p, from, b, b.len() as int, n) == ex_block(p, from, b, k, n)
    decreases b.len() - k
{ if k < b.len() { lemma_ex_block_err(p, from, b, k + 1, n); } }
proof fn lemma_ex_incs_err(p: Payload, from: S, d: Directive, k: int, n: nat)
    requires 0 <= k <= d.Includes.s.len(), !(ex_incs(p, from, d, k, n).err is Nil)
    ensures ex_incs(p, from, d, d.Includes.s.len() as int, n) == ex_incs(p, from, d, k, n)
    decreases d.Includes.s.len() - k
{ if k < d.Includes.s.len() { lemma_ex_incs_err(p, from, d, k + 1, n); } }
// one step of each loop
pub proof fn lemma_ex_at(p: Payload, from: S, b: Seq<Option<Directive>>, i: int, n: nat)
    requires 0 <= i < b.len()
    ensures ex_block(p, from, b, i + 1, n) == then(ex_block(p, from, b, i, n), ex_dir(p, from, b[i], n)), ex_block(p, from, b, 0, n) == no_ex(),
        !(ex_block(p, from, b, i + 1, n).err is Nil) ==> ex_block(p, from, b, b.len() as int, n) == ex_block(p, from, b, i + 1, n)
{ if !(ex_block(p, from, b, i + 1, n).err is Nil) { lemma_ex_block_err(p, from, b, i + 1, n); } }
pub proof fn lemma_took_at(buf: Seq<included>, i: int)
    requires 0 <= i < buf.len()
    ensures took(buf, i + 1) == then(took(buf, i), took1(buf[i])), took(buf, 0) == no_ex(),
        took(buf, i).err is Nil && buf[i].err is Nil ==> took(buf, i + 1) == (Ex { ds: took(buf, i).ds.push(buf[i].directive), err: GoErr::Nil }), !(took(buf, i + 1).err is Nil) ==> took(buf, buf.len() as int) == took(buf, i + 1)
{
    if !(took(buf, i + 1).err is Nil) { lemma_took_err(buf, i + 1); }
    assert(took(buf, i).ds + Seq::<Option<Directive>>::empty().push(buf[i].directive) =~= took(buf, i).ds.push(buf[i].directive));
}
pub proof fn lemma_sends(buf: Seq<included>)
    ensures forall|x: included| took(#[trigger] buf.push(x), buf.len() as int + 1) == then(took(buf, buf.len() as int), took1(x))
{ assert forall|x: included| took(#[trigger] buf.push(x), buf.len() as int + 1) == then(took(buf, buf.len() as int), took1(x)) by { lemma_took(buf, x); } }
pub proof fn lemma_incs_at(p: Payload, from: S, d: Directive, i: int, n: nat, t: Ex)
    requires 0 <= i < d.Includes.s.len()
    ensures ex_incs(p, from, d, i + 1, n) == then(ex_incs(p, from, d, i, n), ex_inc(p, from, d, d.Includes.s[i], n)), ex_incs(p, from, d, 0, n) == no_ex(),
        !(ex_incs(p, from, d, i + 1, n).err is Nil) ==> ex_incs(p, from, d, d.Includes.s.len() as int, n) == ex_incs(p, from, d, i + 1, n),
        then(then(t, ex_incs(p, from, d, i, n)), ex_inc(p, from, d, d.Includes.s[i], n)) == then(t, ex_incs(p, from, d, i + 1, n))
{
    if !(ex_incs(p, from, d, i + 1, n).err is Nil) { lemma_ex_incs_err(p, from, d, i + 1, n); }
    lemma_then(t, ex_incs(p, from, d, i, n), ex_inc(p, from, d, d.Includes.s[i], n));
}

// C11: in what is returned no include is left, at any depth
pub open spec fn flat1(a: Option<Directive>) -> bool decreases a, 0nat { a is Some && !is_inc(a->0) && (a->0.Block.nn ==> flats(a->0.Block.s)) }
pub open spec fn flats(b: Seq<Option<Directive>>) -> bool decreases b, b.len() + 1 { forall|i: int| 0 <= i < b.len() ==> flat1(#[trigger] b[i]) }
proof fn lemma_flats_cat(a: Seq<Option<Directive>>, b: Seq<Option<Directive>>)
    requires flats(a), flats(b)
    ensures flats(a + b)
{
    let c = a + b;
    assert forall|i: int| 0 <= i < c.len() implies flat1(#[trigger] c[i]) by { if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); } }
}
proof fn lemma_flat_block(p: Payload, from: S, b: Seq<Option<Directive>>, k: int, n: nat)
    ensures flats(ex_block(p, from, b, k, n).ds)
    decreases n, b, k
{
    if 0 < k <= b.len() {
        lemma_flat_block(p, from, b, k - 1, n); lemma_flat_dir(p, from, b[k - 1], n);
        lemma_flats_cat(ex_block(p, from, b, k - 1, n).ds, ex_dir(p, from, b[k - 1], n).ds);
    }
}
proof fn lemma_flat_dir(p: Payload, from: S, a: Option<Directive>, n: nat)
    ensures flats(ex_dir(p, from, a, n).ds)
    decreases n, a, 0int
{
    if a is Some {
        let d = a->0;
        if d.Block.nn { lemma_flat_block(p, from, d.Block.s, d.Block.s.len() as int, n); }
        if is_inc(d) { lemma_flat_incs(p, from, d, d.Includes.s.len() as int, n); }
    }
}
proof fn lemma_flat_incs(p: Payload, from: S, d: Directive, k: int, n: nat)
    ensures flats(ex_incs(p, from, d, k, n).ds)
    decreases n, d, k
{
    if k > 0 {
        lemma_flat_incs(p, from, d, k - 1, n);
        let i = d.Includes.s[k - 1];
        if has_conf(p, i) && n > 0 { let c = p.Config.s[i]; lemma_flat_block(p, c.File, c.Parsed.s, c.Parsed.s.len() as int, (n - 1) as nat); }
        lemma_flats_cat(ex_incs(p, from, d, k - 1, n).ds, ex_inc(p, from, d, i, n).ds);
    }
}
pub proof fn no_include_is_left(p: Payload, r: Option<Payload>, e: GoErr)
    requires combines_to(p, r, e), p.Config.s.len() > 0, r is Some
    ensures flats(r->0.Config.s[0].Parsed.s), r->0.Config.s.len() == 1
{ let c = p.Config.s[0]; lemma_flat_block(p, c.File, c.Parsed.s, c.Parsed.s.len() as int, level(p, c.Parsed.s)); }
// C11: a payload whose blocks hold no include and no error combines to the same directives
pub open spec fn plain1(a: Option<Directive>) -> bool decreases a, 0nat { a is Some && !is_inc(a->0) && plains(a->0.Block.s) }
pub open spec fn plains(b: Seq<Option<Directive>>) -> bool decreases b, b.len() + 1 { forall|i: int| 0 <= i < b.len() ==> plain1(#[trigger] b[i]) }
proof fn lemma_plain_block(p: Payload, from: S, b: Seq<Option<Directive>>, k: int, n: nat)
    requires plains(b), 0 <= k <= b.len()
    ensures ex_block(p, from, b, k, n) == (Ex { ds: b.subrange(0, k), err: GoErr::Nil })
    decreases b, k
{
    if k == 0 { assert(b.subrange(0, k) =~= Seq::<Option<Directive>>::empty()); }
    else {
        lemma_plain_block(p, from, b, k - 1, n); assert(plain1(b[k - 1]));
        let d = b[k - 1]->0;
        if d.Block.nn { lemma_plain_block(p, from, d.Block.s, d.Block.s.len() as int, n); assert(d.Block.s.subrange(0, d.Block.s.len() as int) =~= d.Block.s); }
        assert(d.Block.nn ==> (Directive { Block: Sl { s: d.Block.s, nn: true }, ..d }) == d);
        assert(ex_dir(p, from, b[k - 1], n) == (Ex { ds: Seq::<Option<Directive>>::empty().push(b[k - 1]), err: GoErr::Nil }));
        assert(ex_block(p, from, b, k, n) == then(ex_block(p, from, b, k - 1, n), ex_dir(p, from, b[k - 1], n)));
        assert(b.subrange(0, k - 1) + Seq::<Option<Directive>>::empty().push(b[k - 1]) =~= b.subrange(0, k));
    }
}
pub proof fn nothing_else_changes(p: Payload, r: Option<Payload>, e: GoErr)
    requires combines_to(p, r, e), p.Config.s.len() > 0, plains(p.Config.s[0].Parsed.s)
    ensures r is Some, e is Nil, r->0.Config.s[0].Parsed.s == p.Config.s[0].Parsed.s
{ let b = p.Config.s[0].Parsed.s; lemma_plain_block(p, p.Config.s[0].File, b, b.len() as int, level(p, b)); assert(b.subrange(0, b.len() as int) =~= b); }

// no nil directive in any config
pub open spec fn wf_configs(p: Payload) -> bool { forall|i: int| 0 <= i < p.Config.s.len() ==> wfs((#[trigger] p.Config.s[i]).Parsed.s) }
