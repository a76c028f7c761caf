// ---- equality of directive trees ----
pub open spec fn same(a: Option<Directive>, b: Option<Directive>) -> bool
    decreases a
{
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => {
            &&& x.Directive == y.Directive
            &&& x.Args.s == y.Args.s
            &&& x.Line == y.Line
            &&& x.File == y.File
            &&& x.Comment == y.Comment
            &&& x.IsMapBlockParameter == y.IsMapBlockParameter
            &&& x.Includes.s == y.Includes.s
            &&& x.Block.s.len() == y.Block.s.len()
            &&& forall|i: int| 0 <= i < x.Block.s.len() ==> same(#[trigger] x.Block.s[i], y.Block.s[i])
        }
        _ => false,
    }
}

pub proof fn same_is_reflexive(a: Option<Directive>)
    ensures same(a, a)
    decreases a
{
    if a is Some {
        assert forall|i: int| 0 <= i < a->0.Block.s.len() implies same(#[trigger] a->0.Block.s[i], a->0.Block.s[i]) by {
            same_is_reflexive(a->0.Block.s[i]);
        }
    }
}
pub proof fn same_is_symmetric(a: Option<Directive>, b: Option<Directive>)
    ensures same(a, b) == same(b, a)
    decreases a
{
    if a is Some && b is Some && a->0.Block.s.len() == b->0.Block.s.len() {
        let x = a->0.Block.s; let y = b->0.Block.s;
        assert forall|i: int| 0 <= i < x.len() implies same(x[i], y[i]) == same(#[trigger] y[i], #[trigger] x[i]) by { same_is_symmetric(x[i], y[i]); }
        if same(a, b) { assert forall|i: int| 0 <= i < y.len() implies same(#[trigger] y[i], x[i]) by { assert(same(x[i], y[i])); } }
        if same(b, a) { assert forall|i: int| 0 <= i < x.len() implies same(#[trigger] x[i], y[i]) by { assert(same(y[i], x[i])); } }
    }
}
pub proof fn same_is_transitive(a: Option<Directive>, b: Option<Directive>, c: Option<Directive>)
    requires same(a, b), same(b, c)
    ensures same(a, c)
    decreases a
{
    if a is Some {
        let x = a->0.Block.s; let y = b->0.Block.s; let z = c->0.Block.s;
        assert forall|i: int| 0 <= i < x.len() implies same(#[trigger] x[i], z[i]) by {
            assert(same(x[i], y[i])); assert(same(y[i], z[i])); same_is_transitive(x[i], y[i], z[i]);
        }
    }
}
