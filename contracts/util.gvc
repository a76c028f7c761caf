func crossplane.contains(xs, x) (r)
  ensures @spec r == xs.s.contains(x)
  loop 0
    invariant @notyet forall|i: int| 0 <= i < ix0 ==> xs.s[i] != x

func crossplane.equals(a, b) (r)
  ensures @spec r == (a.s == b.s)
  loop 0
    invariant @len a.s.len() == b.s.len()
    invariant @same forall|i: int| 0 <= i < ix0 ==> a.s[i] == b.s[i]
  exit assert(a.s.len() == b.s.len() && (forall|i: int| 0 <= i < a.s.len() ==> a.s[i] == b.s[i]) ==> a.s =~= b.s);

func crossplane.strPtrEqual(a, b) (r)
  nilable a, b
  ensures @spec r == (a == b)
