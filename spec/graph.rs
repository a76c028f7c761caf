// ---- include cycles ----
// e: the edges (file, included file) in the order they were found
pub open spec fn into(e: Seq<(S, S)>, f: S) -> int decreases e.len() { if e.len() == 0 { 0 } else { into(e.drop_last(), f) + (if e.last().1 == f { 1int } else { 0 }) } }
pub open spec fn out_of(e: Seq<(S, S)>, a: S) -> Seq<S> decreases e.len() {
    if e.len() == 0 { Seq::empty() } else if e.last().0 == a { out_of(e.drop_last(), a).push(e.last().1) } else { out_of(e.drop_last(), a) }
}
// edges into f from files not in done
pub open spec fn into_from(e: Seq<(S, S)>, f: S, done: Seq<S>) -> int decreases e.len() {
    if e.len() == 0 { 0 } else { into_from(e.drop_last(), f, done) + (if e.last().1 == f && !done.contains(e.last().0) { 1int } else { 0 }) }
}
pub open spec fn times(s: Seq<S>, f: S) -> int decreases s.len() { if s.len() == 0 { 0 } else { times(s.drop_last(), f) + (if s.last() == f { 1int } else { 0 }) } }
pub open spec fn graph(p: parser, e: Seq<(S, S)>) -> bool {
    &&& forall|k: S| #[trigger] mp_get(p.includeEdges, k, sl_nil::<S>()).s == out_of(e, k)
    &&& forall|f: S| #[trigger] p.includeInDegree.m.contains_key(f) ==> p.includeInDegree.m[f] == into(e, f)
    &&& forall|i: int| 0 <= i < e.len() ==> p.includeInDegree.m.contains_key((#[trigger] e[i]).0) && p.includeInDegree.m.contains_key(e[i].1)
}
pub open spec fn has_graph(p: parser) -> bool { exists|e: Seq<(S, S)>| graph(p, e) }
pub open spec fn edges_of(p: parser) -> Seq<(S, S)> { choose|e: Seq<(S, S)>| graph(p, e) }
pub open spec fn is_edge(p: parser, a: S, b: S) -> bool { mp_get(p.includeEdges, a, sl_nil::<S>()).s.contains(b) }
// some file includes itself, directly or through other files
pub open spec fn closed_walk(p: parser, w: Seq<S>) -> bool { w.len() >= 2 && w[0] == w.last() && forall|i: int, j: int| 0 <= i && j == i + 1 && j < w.len() ==> is_edge(p, #[trigger] w[i], #[trigger] w[j]) }
pub open spec fn cyclic(p: parser) -> bool { exists|w: Seq<S>| closed_walk(p, w) }

proof fn lemma_edge(e: Seq<(S, S)>, a: S, b: S)
    ensures out_of(e, a).contains(b) == e.contains((a, b))
    decreases e.len()
{
    if e.len() > 0 {
        let d = e.drop_last();
        lemma_edge(d, a, b);
        let o = out_of(e, a); let p = out_of(d, a);
        if o.contains(b) {
            let i = choose|i: int| 0 <= i < o.len() && o[i] == b;
            if e.last().0 == a && i == o.len() - 1 { assert(e[e.len() - 1] == (a, b)); } else { assert(p[i] == b); let j = choose|j: int| 0 <= j < d.len() && d[j] == (a, b); assert(e[j] == (a, b)); }
        }
        if e.contains((a, b)) {
            let j = choose|j: int| 0 <= j < e.len() && e[j] == (a, b);
            if j < d.len() { assert(d[j] == (a, b)); let i = choose|i: int| 0 <= i < p.len() && p[i] == b; assert(o[i] == b); } else { assert(o[o.len() - 1] == b); }
        }
    }
}
// Kahn's algorithm: done are the files taken from the queue, rest the edges of the last one still to be looked at
pub open spec fn earlier(all: Seq<S>, n: int, j: int, a: S) -> bool { exists|k: int| 0 <= k < j && k < n && #[trigger] all[k] == a }
pub open spec fn kahn(p: parser, e: Seq<(S, S)>, done: Seq<S>, queue: Seq<S>, deg: Map<S, int>, rest: Seq<S>) -> bool {
    let all = done + queue;
    &&& all.no_duplicates() && graph(p, e)
    &&& deg.dom() == p.includeInDegree.m.dom()
    &&& forall|f: S| #[trigger] deg.contains_key(f) ==> deg[f] == into_from(e, f, done) + times(rest, f)
    &&& forall|f: S| #[trigger] deg.contains_key(f) ==> (all.contains(f) <==> deg[f] == 0)
    &&& forall|j: int| 0 <= j < all.len() ==> deg.contains_key(#[trigger] all[j])
    &&& forall|i: int| 0 <= i < rest.len() ==> deg.contains_key(#[trigger] rest[i])
    &&& forall|j: int, i: int| 0 <= j < all.len() && 0 <= i < e.len() && (#[trigger] e[i]).1 == (#[trigger] all[j]) ==> earlier(all, done.len() as int, j, e[i].0)
}
pub open spec fn some_done(p: parser, n: int, queue: Seq<S>, deg: Map<S, int>) -> bool { exists|done: Seq<S>| done.len() == n && #[trigger] kahn(p, edges_of(p), done, queue, deg, Seq::empty()) }
pub open spec fn the_done(p: parser, n: int, queue: Seq<S>, deg: Map<S, int>) -> Seq<S> { choose|done: Seq<S>| done.len() == n && #[trigger] kahn(p, edges_of(p), done, queue, deg, Seq::empty()) }

proof fn lemma_into_from(e: Seq<(S, S)>, f: S, done: Seq<S>, x: S)
    requires !done.contains(x)
    ensures into_from(e, f, done) == into_from(e, f, done.push(x)) + times(out_of(e, x), f), into_from(e, f, done) >= 0
    decreases e.len()
{
    let d = done.push(x);
    if e.len() > 0 {
        lemma_into_from(e.drop_last(), f, done, x);
        let a = e.last().0;
        assert(d.contains(a) == (done.contains(a) || a == x)) by { lemma_push_contains(done, x, a); }
        if a == x { assert(out_of(e, x).drop_last() =~= out_of(e.drop_last(), x)); }
    }
}
proof fn lemma_into_none(e: Seq<(S, S)>, f: S)
    ensures into_from(e, f, Seq::empty()) == into(e, f)
    decreases e.len()
{ if e.len() > 0 { lemma_into_none(e.drop_last(), f); assert(!Seq::<S>::empty().contains(e.last().0)); } }
proof fn lemma_from_done(e: Seq<(S, S)>, f: S, done: Seq<S>, i: int)
    requires into_from(e, f, done) <= 0, 0 <= i < e.len(), e[i].1 == f
    ensures done.contains(e[i].0)
    decreases e.len()
{
    lemma_from_pos(e.drop_last(), f, done);
    if i < e.len() - 1 { assert(e.drop_last()[i] == e[i]); lemma_from_done(e.drop_last(), f, done, i); }
}
proof fn lemma_from_pos(e: Seq<(S, S)>, f: S, done: Seq<S>) ensures into_from(e, f, done) >= 0 decreases e.len()
{ if e.len() > 0 { lemma_from_pos(e.drop_last(), f, done); } }
proof fn lemma_from_some(e: Seq<(S, S)>, f: S, done: Seq<S>) -> (i: int)
    requires into_from(e, f, done) > 0
    ensures 0 <= i < e.len(), e[i].1 == f, !done.contains(e[i].0)
    decreases e.len()
{
    let l = e.len() - 1;
    if e.last().1 == f && !done.contains(e.last().0) { assert(e[l] == e.last()); l }
    else { let j = lemma_from_some(e.drop_last(), f, done); assert(e.drop_last()[j] == e[j]); j }
}
proof fn lemma_times(s: Seq<S>, f: S)
    ensures times(s, f) >= 0, s.len() > 0 ==> times(s, f) == times(s.subrange(1, s.len() as int), f) + (if s[0] == f { 1int } else { 0 })
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.subrange(1, s.len() as int);
        lemma_times(s.drop_last(), f);
        if s.len() > 1 { assert(t.drop_last() =~= s.drop_last().subrange(1, s.len() - 1)); assert(t.last() == s.last()); }
        else { assert(s.drop_last() =~= Seq::<S>::empty()); assert(t =~= Seq::<S>::empty()); }
    }
}
// no file has been taken yet
pub proof fn lemma_kahn_start(p: parser, queue: Seq<S>)
    requires has_graph(p), queue.no_duplicates(), forall|i: int| 0 <= i < queue.len() ==> p.includeInDegree.m.contains_key(#[trigger] queue[i]),
        forall|f: S| #[trigger] p.includeInDegree.m.contains_key(f) ==> (queue.contains(f) <==> p.includeInDegree.m[f] == 0)
    ensures some_done(p, 0, queue, p.includeInDegree.m)
{
    let e = edges_of(p); let d = Seq::<S>::empty(); let all = d + queue;
    assert(graph(p, e));
    assert(all =~= queue);
    assert forall|f: S| #[trigger] p.includeInDegree.m.contains_key(f) implies p.includeInDegree.m[f] == into_from(e, f, d) + times(Seq::empty(), f) by { lemma_into_none(e, f); }
    assert forall|j: int, i: int| 0 <= j < all.len() && 0 <= i < e.len() && (#[trigger] e[i]).1 == (#[trigger] all[j]) implies earlier(all, 0, j, e[i].0) by {
        let f = all[j];
        assert(queue[j] == f); assert(p.includeInDegree.m.contains_key(f)); assert(queue.contains(f)); lemma_into_none(e, f);
        lemma_from_done(e, f, d, i);
    }
    assert(kahn(p, e, d, queue, p.includeInDegree.m, Seq::empty()));
}
// the next file is taken
pub proof fn lemma_kahn_take(p: parser, e: Seq<(S, S)>, done: Seq<S>, queue: Seq<S>, deg: Map<S, int>)
    requires kahn(p, e, done, queue, deg, Seq::empty()), queue.len() > 0
    ensures kahn(p, e, done.push(queue[0]), queue.subrange(1, queue.len() as int), deg, out_of(e, queue[0])), out_of(e, queue[0]).subrange(0, out_of(e, queue[0]).len() as int) == out_of(e, queue[0]), done.len() < deg.dom().len(),
        mp_get(p.includeEdges, queue[0], sl_nil::<S>()).s == out_of(e, queue[0])
{
    let x = queue[0]; let d = done.push(x); let q = queue.subrange(1, queue.len() as int); let all = done + queue;
    assert(d + q =~= all);
    assert(all[done.len() as int] == x);
    assert(!done.contains(x)) by { if done.contains(x) { let i = choose|i: int| 0 <= i < done.len() && done[i] == x; assert(all[i] == x); } }
    assert forall|f: S| #[trigger] deg.contains_key(f) implies deg[f] == into_from(e, f, d) + times(out_of(e, x), f) by { lemma_into_from(e, f, done, x); }
    let o = out_of(e, x);
    assert forall|i: int| 0 <= i < o.len() implies deg.contains_key(#[trigger] o[i]) by {
        lemma_edge(e, x, o[i]); assert(o.contains(o[i])); let j = choose|j: int| 0 <= j < e.len() && e[j] == (x, o[i]); assert(p.includeInDegree.m.dom().contains(e[j].1)); assert(deg.dom().contains(o[i]));
    }
    assert forall|j: int, i: int| 0 <= j < all.len() && 0 <= i < e.len() && (#[trigger] e[i]).1 == (#[trigger] all[j]) implies earlier(all, d.len() as int, j, e[i].0) by {
        assert(earlier(all, done.len() as int, j, e[i].0));
        let k = choose|k: int| 0 <= k < j && k < done.len() && #[trigger] all[k] == e[i].0;
        assert(0 <= k < j && k < d.len() && all[k] == e[i].0);
    }
    lemma_distinct_len(all, deg.dom());
    assert(o.subrange(0, o.len() as int) =~= o);
    assert(mp_get(p.includeEdges, x, sl_nil::<S>()).s == out_of(e, x));
}
pub proof fn lemma_distinct_len(s: Seq<S>, d: Set<S>)
    requires s.no_duplicates(), forall|i: int| 0 <= i < s.len() ==> d.contains(#[trigger] s[i])
    ensures s.len() <= d.len(), s.len() == d.len() ==> forall|x: S| #[trigger] d.contains(x) ==> s.contains(x)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last(); let r = d.remove(s.last());
        assert(d.contains(s[s.len() - 1]));
        assert forall|i: int| 0 <= i < t.len() implies r.contains(#[trigger] t[i]) by { assert(t[i] == s[i]); assert(s[i] != s[s.len() - 1]); }
        lemma_distinct_len(t, r);
        if s.len() == d.len() {
            assert forall|x: S| #[trigger] d.contains(x) implies s.contains(x) by {
                if x == s.last() { assert(s[s.len() - 1] == x); } else { assert(r.contains(x)); assert(t.contains(x)); let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(s[i] == x); }
            }
        }
    } else if d.len() == 0 { assert forall|x: S| #[trigger] d.contains(x) implies s.contains(x) by { assert(d =~= Set::empty()) by { assert(d.len() == 0); if d.contains(x) { let r = d.remove(x); assert(r.len() + 1 == d.len()); } } } }
}
// one edge of the file taken last is looked at
pub open spec fn deg_less(deg: Map<S, int>, f: S) -> Map<S, int> { deg.insert(f, deg[f] - 1) }
pub proof fn lemma_kahn_edge(p: parser, e: Seq<(S, S)>, done: Seq<S>, queue: Seq<S>, deg: Map<S, int>, rest: Seq<S>)
    requires kahn(p, e, done, queue, deg, rest), rest.len() > 0
    ensures ({
        let f = rest[0]; let n = deg_less(deg, f);
        deg.contains_key(f) && kahn(p, e, done, if n[f] == 0 { queue.push(f) } else { queue }, n, rest.subrange(1, rest.len() as int))
    })
{
    let f = rest[0]; let n = deg_less(deg, f); let q = if n[f] == 0 { queue.push(f) } else { queue }; let r = rest.subrange(1, rest.len() as int);
    let all = done + queue; let al2 = done + q;
    assert(deg.contains_key(rest[0]));
    assert(n.dom() =~= deg.dom());
    lemma_times(rest, f); lemma_times(r, f); lemma_from_pos(e, f, done);
    assert(deg[f] >= 1);
    assert(!all.contains(f));
    assert(al2 =~= if n[f] == 0 { all.push(f) } else { all });
    assert forall|g: S| #[trigger] n.contains_key(g) implies n[g] == into_from(e, g, done) + times(r, g) by { lemma_times(rest, g); assert(deg.contains_key(g)); }
    assert forall|g: S| #[trigger] n.contains_key(g) implies (al2.contains(g) <==> n[g] == 0) by { assert(deg.contains_key(g)); lemma_push_contains(all, f, g); }
    assert forall|j: int| 0 <= j < al2.len() implies n.contains_key(#[trigger] al2[j]) by { if j < all.len() { assert(al2[j] == all[j]); } }
    assert forall|i: int| 0 <= i < r.len() implies n.contains_key(#[trigger] r[i]) by { assert(r[i] == rest[i + 1]); }
    assert(al2.no_duplicates()) by {
        if n[f] == 0 { assert forall|a: int, b: int| 0 <= a < b < al2.len() implies al2[a] != al2[b] by { if b == all.len() { assert(all[a] == al2[a]); assert(all.contains(al2[a])); } else { assert(al2[a] == all[a] && al2[b] == all[b]); } } }
    }
    assert forall|j: int, i: int| 0 <= j < al2.len() && 0 <= i < e.len() && (#[trigger] e[i]).1 == (#[trigger] al2[j]) implies earlier(al2, done.len() as int, j, e[i].0) by {
        if j < all.len() {
            assert(al2[j] == all[j]);
            assert(earlier(all, done.len() as int, j, e[i].0));
            let k = choose|k: int| 0 <= k < j && k < done.len() && #[trigger] all[k] == e[i].0;
            assert(al2[k] == e[i].0);
        } else {
            lemma_from_done(e, f, done, i);
            let k = choose|k: int| 0 <= k < done.len() && done[k] == e[i].0;
            assert(al2[k] == e[i].0);
        }
    }
}
// position of x
pub open spec fn pos(s: Seq<S>, x: S) -> int { choose|i: int| 0 <= i < s.len() && s[i] == x }
proof fn lemma_no_walk(p: parser, e: Seq<(S, S)>, done: Seq<S>, deg: Map<S, int>, w: Seq<S>, n: int)
    requires kahn(p, e, done, Seq::empty(), deg, Seq::empty()), forall|x: S| deg.contains_key(x) ==> done.contains(x), closed_walk(p, w), 1 <= n < w.len()
    ensures done.contains(w[0]), done.contains(w[n]), pos(done, w[0]) < pos(done, w[n])
    decreases n
{
    let a = w[n - 1]; let b = w[n];
    assert(done + Seq::<S>::empty() =~= done);
    assert(is_edge(p, w[n - 1], w[n]));
    assert(mp_get(p.includeEdges, a, sl_nil::<S>()).s == out_of(e, a));
    lemma_edge(e, a, b);
    let i = choose|i: int| 0 <= i < e.len() && e[i] == (a, b);
    assert(p.includeInDegree.m.dom().contains(e[i].0) && p.includeInDegree.m.dom().contains(e[i].1));
    assert(deg.contains_key(a) && deg.contains_key(b));
    assert(done.contains(b));
    let j = pos(done, b);
    assert(done[j] == b);
    assert(e[i].1 == done[j]);
    assert(earlier(done, done.len() as int, j, a));
    let k = choose|k: int| 0 <= k < j && k < done.len() && #[trigger] done[k] == a;
    assert(done.contains(a));
    let k2 = pos(done, a);
    assert(done[k2] == a);
    assert(k == k2);
    if n > 1 { lemma_no_walk(p, e, done, deg, w, n - 1); }
}
// going back from a file that was never taken
pub open spec fn leads(e: Seq<(S, S)>, done: Seq<S>, f: S, i: int) -> bool { 0 <= i < e.len() && e[i].1 == f && !done.contains(e[i].0) }
pub open spec fn before(e: Seq<(S, S)>, done: Seq<S>, f: S) -> S { e[choose|i: int| leads(e, done, f, i)].0 }
pub open spec fn back(e: Seq<(S, S)>, done: Seq<S>, f: S, n: int) -> Seq<S> decreases n { if n <= 0 { seq![f] } else { back(e, done, f, n - 1).push(before(e, done, back(e, done, f, n - 1).last())) } }
proof fn lemma_back(p: parser, e: Seq<(S, S)>, done: Seq<S>, deg: Map<S, int>, f: S, n: int)
    requires kahn(p, e, done, Seq::empty(), deg, Seq::empty()), deg.contains_key(f), !done.contains(f), n >= 0
    ensures ({
        let s = back(e, done, f, n);
        &&& s.len() == n + 1
        &&& forall|i: int| 0 <= i < s.len() ==> deg.contains_key(#[trigger] s[i]) && !done.contains(s[i])
        &&& forall|i: int, j: int| 0 <= i && j == i + 1 && j < s.len() ==> is_edge(p, #[trigger] s[j], #[trigger] s[i])
    })
    decreases n
{
    if n > 0 {
        lemma_back(p, e, done, deg, f, n - 1);
        let s = back(e, done, f, n - 1); let l = s.last();
        assert(s[n - 1] == l);
        assert(done + Seq::<S>::empty() =~= done);
        assert(deg.contains_key(l));
        assert(deg[l] != 0);
        assert(times(Seq::<S>::empty(), l) == 0);
        lemma_from_pos(e, l, done);
        let i = lemma_from_some(e, l, done);
        assert(leads(e, done, l, i));
        let k = choose|i: int| leads(e, done, l, i);
        let a = before(e, done, l);
        assert(e[k] == (a, l));
        assert(p.includeInDegree.m.dom().contains(e[k].0));
        lemma_edge(e, a, l);
        assert(mp_get(p.includeEdges, a, sl_nil::<S>()).s == out_of(e, a));
        assert(is_edge(p, a, l));
        let t = back(e, done, f, n);
        assert(t == s.push(a));
    }
}
proof fn lemma_found_walk(p: parser, s: Seq<S>, i: int, j: int)
    requires 0 <= i < j < s.len(), s[i] == s[j], forall|i: int, j: int| 0 <= i && j == i + 1 && j < s.len() ==> is_edge(p, #[trigger] s[j], #[trigger] s[i])
    ensures cyclic(p)
{
    let w = Seq::new((j - i + 1) as nat, |k: int| s[j - k]);
    assert forall|a: int, b: int| 0 <= a && b == a + 1 && b < w.len() implies is_edge(p, #[trigger] w[a], #[trigger] w[b]) by { assert(w[a] == s[j - a]); assert(w[b] == s[j - a - 1]); assert(is_edge(p, s[j - a], s[j - a - 1])); }
    assert(closed_walk(p, w));
}
pub proof fn lemma_kahn_end(p: parser, e: Seq<(S, S)>, done: Seq<S>, deg: Map<S, int>)
    requires kahn(p, e, done, Seq::empty(), deg, Seq::empty())
    ensures cyclic(p) == (done.len() != deg.dom().len())
{
    assert(done + Seq::<S>::empty() =~= done);
    lemma_distinct_len(done, deg.dom());
    if done.len() == deg.dom().len() {
        if cyclic(p) {
            let w = choose|w: Seq<S>| closed_walk(p, w);
            assert forall|x: S| deg.contains_key(x) implies done.contains(x) by { assert(deg.dom().contains(x)); }
            lemma_no_walk(p, e, done, deg, w, w.len() - 1);
            assert(w[w.len() - 1] == w.last());
        }
    } else {
        assert(exists|f: S| deg.dom().contains(f) && !done.contains(f)) by {
            if forall|f: S| #[trigger] deg.dom().contains(f) ==> done.contains(f) { lemma_covered(done, deg.dom()); }
        }
        let f = choose|f: S| deg.dom().contains(f) && !done.contains(f);
        let n = deg.dom().len() as int;
        lemma_back(p, e, done, deg, f, n);
        let s = back(e, done, f, n);
        if s.no_duplicates() { lemma_distinct_len(s, deg.dom()); assert(false); }
        let (i, j) = choose|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j && s[i] == s[j];
        if i < j { lemma_found_walk(p, s, i, j); } else { lemma_found_walk(p, s, j, i); }
    }
}
proof fn lemma_covered(s: Seq<S>, d: Set<S>)
    requires forall|f: S| #[trigger] d.contains(f) ==> s.contains(f)
    ensures d.len() <= s.len()
    decreases s.len()
{
    if s.len() == 0 { assert(d =~= Set::empty()) by { assert forall|x: S| !d.contains(x) by { if d.contains(x) { assert(s.contains(x)); } } } }
    else {
        let r = d.remove(s.last()); let t = s.drop_last();
        assert forall|f: S| r.contains(f) implies t.contains(f) by { assert(d.contains(f)); assert(s.contains(f)); let i = choose|i: int| 0 <= i < s.len() && s[i] == f; assert(t[i] == f); }
        lemma_covered(t, r);
    }
}
// the files nothing includes, in the order of an enumeration
pub open spec fn zero_degree(m: Map<S, int>, keys: Seq<S>, n: int) -> Seq<S> decreases n {
    if n <= 0 { Seq::empty() } else if m[keys[n - 1]] == 0 { zero_degree(m, keys, n - 1).push(keys[n - 1]) } else { zero_degree(m, keys, n - 1) }
}
pub proof fn lemma_zero(m: Map<S, int>, keys: Seq<S>, n: int)
    requires n >= 0
    ensures zero_degree(m, keys, n + 1) == (if m[keys[n]] == 0 { zero_degree(m, keys, n).push(keys[n]) } else { zero_degree(m, keys, n) })
{ }
proof fn lemma_zero_in(m: Map<S, int>, keys: Seq<S>, n: int)
    requires 0 <= n <= keys.len(), keys.no_duplicates()
    ensures ({ let q = zero_degree(m, keys, n);
        &&& q.no_duplicates() && q.len() <= n
        &&& forall|i: int| 0 <= i < q.len() ==> keys.subrange(0, n).contains(#[trigger] q[i]) && m[q[i]] == 0
        &&& forall|i: int| 0 <= i < n && m[#[trigger] keys[i]] == 0 ==> q.contains(keys[i]) })
    decreases n
{
    if n > 0 {
        lemma_zero_in(m, keys, n - 1);
        let q = zero_degree(m, keys, n); let p = zero_degree(m, keys, n - 1);
        let k = keys.subrange(0, n); let j = keys.subrange(0, n - 1);
        assert forall|i: int| 0 <= i < q.len() implies k.contains(#[trigger] q[i]) && m[q[i]] == 0 by {
            if i < p.len() { assert(q[i] == p[i]); let a = choose|a: int| 0 <= a < j.len() && j[a] == p[i]; assert(k[a] == q[i]); } else { assert(k[n - 1] == q[i]); }
        }
        assert forall|i: int| 0 <= i < n && m[#[trigger] keys[i]] == 0 implies q.contains(keys[i]) by {
            if i < n - 1 { let a = choose|a: int| 0 <= a < p.len() && p[a] == keys[i]; assert(q[a] == keys[i]); } else { assert(q[q.len() - 1] == keys[i]); }
        }
        assert forall|a: int, b: int| 0 <= a < b < q.len() implies q[a] != q[b] by {
            if b == p.len() { assert(q[a] == p[a]); let c = choose|c: int| 0 <= c < j.len() && j[c] == p[a]; assert(keys[c] == p[a]); } else { assert(q[a] == p[a] && q[b] == p[b]); }
        }
    }
}
pub proof fn lemma_zero_all(m: Map<S, int>, keys: Seq<S>)
    requires map_enum(Mp { m: m, nn: true }, keys)
    ensures ({ let q = zero_degree(m, keys, keys.len() as int);
        &&& q.no_duplicates()
        &&& forall|i: int| 0 <= i < q.len() ==> m.contains_key(#[trigger] q[i])
        &&& forall|f: S| #[trigger] m.contains_key(f) ==> (q.contains(f) <==> m[f] == 0) })
{
    let n = keys.len() as int;
    lemma_zero_in(m, keys, n);
    assert(keys.subrange(0, n) =~= keys);
    let q = zero_degree(m, keys, n);
    assert forall|f: S| #[trigger] m.contains_key(f) implies (q.contains(f) <==> m[f] == 0) by {
        if m[f] == 0 { assert(keys.contains(f)); let a = choose|a: int| 0 <= a < keys.len() && keys[a] == f; assert(keys[a] == f); }
        if q.contains(f) { let a = choose|a: int| 0 <= a < q.len() && q[a] == f; assert(q[a] == f); }
    }
    assert forall|i: int| 0 <= i < q.len() implies m.contains_key(#[trigger] q[i]) by { assert(keys.contains(q[i])); }
}
// the include tables hold the graph of the includes met so far
pub open spec fn tables(pr: parser) -> bool {
    &&& has_graph(pr) && pr.included.m.dom() == pr.includeInDegree.m.dom()
    &&& forall|i: int| 0 <= i < pr.includes.s.len() ==> pr.includeInDegree.m.contains_key((#[trigger] pr.includes.s[i]).path)
}
proof fn lemma_into_some(e: Seq<(S, S)>, f: S)
    requires forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).1 != f
    ensures into(e, f) == 0
    decreases e.len()
{
    if e.len() > 0 {
        let d = e.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).1 != f by { assert(d[i] == e[i]); }
        lemma_into_some(d, f); assert(e.last() == e[e.len() - 1]);
    }
}
proof fn lemma_add_edge(pr: parser, from: S, name: S, ctx: Sl<S>)
    requires tables(pr), pr.includeInDegree.m.contains_key(from)
    ensures tables(add_inc(pr, from, name, ctx)), add_inc(pr, from, name, ctx).includeInDegree.m.contains_key(from)
{
    let q = add_inc(pr, from, name, ctx);
    let e = edges_of(pr); let g = e.push((from, name));
    assert(graph(pr, e));
    assert(g.drop_last() =~= e);
    let deg = pr.includeInDegree.m;
    if !deg.contains_key(name) {
        assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i]).1 != name by { assert(deg.contains_key(e[i].1)); }
        lemma_into_some(e, name);
    }
    assert forall|f: S| #[trigger] q.includeInDegree.m.contains_key(f) implies q.includeInDegree.m[f] == into(g, f) by { if f != name { assert(deg.contains_key(f)); } }
    assert forall|k: S| #[trigger] mp_get(q.includeEdges, k, sl_nil::<S>()).s == out_of(g, k) by { assert(mp_get(pr.includeEdges, k, sl_nil::<S>()).s == out_of(e, k)); }
    assert forall|i: int| 0 <= i < g.len() implies q.includeInDegree.m.contains_key((#[trigger] g[i]).0) && q.includeInDegree.m.contains_key(g[i].1) by {
        if i < e.len() { assert(g[i] == e[i]); assert(deg.contains_key(e[i].0) && deg.contains_key(e[i].1)); }
    }
    assert(graph(q, g));
    assert(q.included.m.dom() =~= q.includeInDegree.m.dom()) by {
        if pr.included.m.contains_key(name) { assert(pr.included.m.dom().contains(name)); assert(deg.dom().contains(name)); assert(deg.dom().insert(name) =~= deg.dom()); }
    }
    assert forall|i: int| 0 <= i < q.includes.s.len() implies q.includeInDegree.m.contains_key((#[trigger] q.includes.s[i]).path) by {
        if i < pr.includes.s.len() { assert(q.includes.s[i] == pr.includes.s[i]); assert(deg.contains_key(pr.includes.s[i].path)); }
    }
}
proof fn lemma_add_edges(pr: parser, from: S, names: Seq<S>, ctx: Sl<S>, k: int)
    requires tables(pr), pr.includeInDegree.m.contains_key(from)
    ensures tables(add_incs(pr, from, names, ctx, k)), add_incs(pr, from, names, ctx, k).includeInDegree.m.contains_key(from)
    decreases k
{ if k > 0 { lemma_add_edges(pr, from, names, ctx, k - 1); lemma_add_edge(add_incs(pr, from, names, ctx, k - 1), from, names[k - 1], ctx); } }
pub open spec fn tables_in(st: PS) -> bool { tables(st.pr) && st.pr.includeInDegree.m.contains_key(st.cfg.File) }
proof fn lemma_tables_head(st: PS, t: NgxToken, out: Seq<Option<Directive>>, ctx: Sl<S>)
    requires tables_in(st)
    ensures match s_head(st, t, out, ctx) { Err(r) => tables_in(r.st), Ok(h) => tables_in(h.st) }
{
    let o = opts(st.pr);
    if !commented(t) && st.toks.len() > 0 {
        let a = args_from(st.cfg.File, ctx.s, o.ParseComments, st.toks[0], tail(st.toks), Seq::empty(), Seq::empty(), GoErr::Nil);
        let d0 = plain(t, file_tag(st), a.args);
        let d = if d0.Directive == lit!("if") { Directive { Args: Sl { s: if_args(d0.Args.s), nn: true }, ..d0 } } else { d0 };
        let i = inc_names(st.pr, st.cfg.File, d, ctx.s);
        lemma_add_edges(st.pr, st.cfg.File, i.names, ctx, i.names.len() as int);
    }
}
pub proof fn lemma_tables(st: PS, out: Seq<Option<Directive>>, ctx: Sl<S>)
    requires tables_in(st)
    ensures tables_in(p_block(st, out, ctx).st)
    decreases st.toks.len()
{
    lemma_block(st, out, ctx);
    if st.toks.len() > 0 && st.toks[0].Error is Nil && !closes(st.toks[0]) {
        let t = st.toks[0]; let s = PS { toks: tail(st.toks), ..st };
        lemma_stmt(s, t, out, ctx); lemma_tables_head(s, t, out, ctx); lemma_head_len(s, t, out, ctx); lemma_stmt_len(s, t, out, ctx);
        match s_head(s, t, out, ctx) {
            Ok(h) => { if opens(h.term) { lemma_tables(h.st, Seq::empty(), inner_ctx(h, ctx)); } }
            Err(r) => { }
        }
        let r = p_stmt(s, t, out, ctx);
        if r.err is Nil && !r.end { lemma_tables(r.st, r.out, ctx); }
    }
}
pub proof fn lemma_tables_run(filename: S, o: ParseOptions, cbs: Seq<(GoErr, Opq)>, n: int)
    requires n >= 0
    ensures f_run(f_init(filename, o, cbs), n).stop || tables(f_run(f_init(filename, o, cbs), n).pr)
    decreases n
{
    let s0 = f_init(filename, o, cbs);
    lemma_f_run(s0, 0);
    if n == 0 {
        let p = s0.pr; let e = Seq::<(S, S)>::empty();
        assert forall|k: S| #[trigger] mp_get(p.includeEdges, k, sl_nil::<S>()).s == out_of(e, k) by { }
        assert(graph(p, e));
    } else {
        lemma_tables_run(filename, o, cbs, n - 1); lemma_f_run(s0, n - 1);
        let s = f_run(s0, n - 1);
        if !s.stop && s.pr.includes.s.len() > 0 && open_err(open_fn(opts(s.pr)), s.pr.includes.s[0].path) is Nil {
            let st = f_start(s);
            let e = edges_of(s.pr);
            assert(graph(s.pr, e));
            assert forall|k: S| #[trigger] mp_get(st.pr.includeEdges, k, sl_nil::<S>()).s == out_of(e, k) by { assert(mp_get(s.pr.includeEdges, k, sl_nil::<S>()).s == out_of(e, k)); }
            assert forall|f: S| #[trigger] st.pr.includeInDegree.m.contains_key(f) implies st.pr.includeInDegree.m[f] == into(e, f) by { assert(s.pr.includeInDegree.m.contains_key(f)); }
            assert(graph(st.pr, e));
            assert(s.pr.includeInDegree.m.contains_key(s.pr.includes.s[0].path));
            assert forall|i: int| 0 <= i < st.pr.includes.s.len() implies st.pr.includeInDegree.m.contains_key((#[trigger] st.pr.includes.s[i]).path) by { assert(st.pr.includes.s[i] == s.pr.includes.s[i + 1]); }
            lemma_tables(st, Seq::empty(), s.pr.includes.s[0].ctx);
        }
    }
}
// C10: every include met in a file is an edge from it, and nothing else is
pub proof fn edges_are_the_includes(st: PS, d: Directive, ctx: Sl<S>, a: S, b: S)
    requires opts(st.pr).SingleFile || d.Directive != lit!("include") || d.Args.s.len() > 0, p_include(st, d, ctx).err is Nil
    ensures is_edge(p_include(st, d, ctx).st.pr, a, b) == (is_edge(st.pr, a, b)
        || a == st.cfg.File && !opts(st.pr).SingleFile && d.Directive == lit!("include") && inc_names(st.pr, st.cfg.File, d, ctx.s).names.contains(b))
{
    let i = inc_names(st.pr, st.cfg.File, d, ctx.s); let n = i.names.len() as int;
    if !(opts(st.pr).SingleFile || d.Directive != lit!("include")) {
        lemma_edges_added(st.pr, st.cfg.File, i.names, ctx, n, a, b);
        assert(i.names.subrange(0, n) =~= i.names);
    }
}
proof fn lemma_edges_added(pr: parser, from: S, names: Seq<S>, ctx: Sl<S>, k: int, a: S, b: S)
    requires 0 <= k <= names.len()
    ensures is_edge(add_incs(pr, from, names, ctx, k), a, b) == (is_edge(pr, a, b) || a == from && names.subrange(0, k).contains(b))
    decreases k
{
    if k > 0 {
        lemma_edges_added(pr, from, names, ctx, k - 1, a, b);
        assert(names.subrange(0, k) =~= names.subrange(0, k - 1).push(names[k - 1]));
        lemma_push_contains(names.subrange(0, k - 1), names[k - 1], b);
        let p = add_incs(pr, from, names, ctx, k - 1); let q = add_inc(p, from, names[k - 1], ctx);
        assert(add_incs(pr, from, names, ctx, k) == q);
        if a == from {
            let l = mp_get(p.includeEdges, from, sl_nil::<S>());
            lemma_push_contains(l.s, names[k - 1], b);
            assert(mp_get(q.includeEdges, a, sl_nil::<S>()).s =~= l.s.push(names[k - 1]));
        } else {
            assert(mp_get(q.includeEdges, a, sl_nil::<S>()) == mp_get(p.includeEdges, a, sl_nil::<S>()));
        }
    } else { assert(names.subrange(0, 0) =~= Seq::<S>::empty()); assert(add_incs(pr, from, names, ctx, k) == pr); }
}
// C10: a file that includes itself, directly or through others, is reported, and nothing else
pub proof fn cycle_is_reported(s: FS, o: ParseOptions, r: Option<Payload>, err: GoErr)
    requires parsed_as(s, o, r, err), !s.stop, !o.CombineConfigs
    ensures (err is Msg) == (exists|w: Seq<S>| closed_walk(s.pr, w)), err is Msg || err is Nil
{ }
