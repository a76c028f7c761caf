// ---- directive trees ----
// nodes of a tree (a measure for recursion)
pub open spec fn dsize(a: Option<Directive>) -> nat decreases a, 0nat {
    match a { None => 0, Some(x) => 1 + dsizes_to(x.Block.s, x.Block.s.len() as int) }
}
pub open spec fn dsizes_to(b: Seq<Option<Directive>>, n: int) -> nat decreases b, n {
    if n <= 0 || n > b.len() { 0 } else { dsizes_to(b, n - 1) + dsize(b[n - 1]) }
}
pub proof fn lemma_dsize(b: Seq<Option<Directive>>, i: int)
    requires 0 <= i < b.len()
    ensures dsize(b[i]) <= dsizes_to(b, b.len() as int)
{
    lemma_dsizes_to(b, b.len() as int, i);
}
proof fn lemma_dsizes_to(b: Seq<Option<Directive>>, n: int, i: int)
    requires 0 <= i < n <= b.len()
    ensures dsize(b[i]) <= dsizes_to(b, n)
    decreases n
{
    if i < n - 1 { lemma_dsizes_to(b, n - 1, i); }
}

// no nil directive anywhere
pub open spec fn wf(a: Option<Directive>) -> bool decreases a, 0nat { a is Some && wfs(a->0.Block.s) }
pub open spec fn wfs(b: Seq<Option<Directive>>) -> bool decreases b, b.len() + 1 { forall|i: int| 0 <= i < b.len() ==> wf(#[trigger] b[i]) }
