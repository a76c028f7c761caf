func crossplane.(*Directive).Equal(d, a) (r)
  nilable d, a
  ensures @spec r == same(d, a)
  decreases dsize(d) + dsize(a)
  entry same_is_reflexive(d);
  loop 0 ~ Includes|\[\]int$
    invariant @includes forall|j: int| 0 <= j < ix0 ==> a->0.Includes.s[j] == d->0.Includes.s[j]
    post assert(a->0.Includes.s =~= d->0.Includes.s);
  loop 1 ~ Block|Directives$
    invariant @block forall|j: int| 0 <= j < ix1 ==> same(#[trigger] d->0.Block.s[j], a->0.Block.s[j])
    head lemma_dsize(d->0.Block.s, ix1); lemma_dsize(a->0.Block.s, ix1); same_is_symmetric(d->0.Block.s[ix1], a->0.Block.s[ix1]);

property C15
  roots crossplane.(*Directive).Equal, crossplane.equals, crossplane.strPtrEqual
  specs tree.rs, equal.rs
