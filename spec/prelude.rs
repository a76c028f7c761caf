// Ghost model of the Go values the extracted code works on.

pub type S = Seq<u8>;

// slice value: elements and "is not nil"
#[verifier::accept_recursive_types(T)]
pub struct Sl<T> { pub s: Seq<T>, pub nn: bool }
// map value
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct Mp<K, V> { pub m: Map<K, V>, pub nn: bool }
// channel: the elements still to be received, and whether it is closed
#[verifier::accept_recursive_types(T)]
pub struct Ch<T> { pub buf: Seq<T>, pub closed: bool }
// values the model does not look into
pub struct Opq { pub id: int }
// writers: everything written so far
pub struct Buf { pub data: S, pub inf: bool, pub name: S }
// the scanner: the pieces its input is cut into, how many were read, and its reader
pub struct Sc { pub cs: Seq<S>, pub pos: int, pub rd: Opq }
pub uninterp spec fn split_by(r: Opq, f: Opq) -> Seq<S>;
pub uninterp spec fn scanner_of(r: Opq) -> Opq;
pub enum GoErr { Nil, PE(Box<ParseError>), Msg(S), Other(Opq) }

pub struct WalkEntry { pub path: S, pub d: Opq, pub err: GoErr }
pub uninterp spec fn walk_entries(root: S) -> Seq<WalkEntry>;

#[verifier::external_body]
pub fn cond(Ghost(b): Ghost<bool>) -> (r: bool) ensures r == b { unimplemented!() }
#[verifier::external_body]
pub fn havoc<T>() -> (r: Ghost<T>) { unimplemented!() }
#[verifier::external_body]
pub fn never<T>() -> (r: T) requires false { unimplemented!() }

pub open spec fn sempty() -> S { Seq::<u8>::empty() }
pub uninterp spec fn sid(s: S) -> int;

pub open spec fn sl_nil<T>() -> Sl<T> { Sl { s: Seq::<T>::empty(), nn: false } }
pub open spec fn sl_of<T>(s: Seq<T>) -> Sl<T> { Sl { s: s, nn: true } }
pub open spec fn sl_push<T>(a: Sl<T>, x: T) -> Sl<T> { Sl { s: a.s.push(x), nn: true } }
pub open spec fn sl_cat<T>(a: Sl<T>, b: Sl<T>) -> Sl<T> { Sl { s: a.s + b.s, nn: a.nn || b.s.len() > 0 } }
pub open spec fn mp_nil<K, V>() -> Mp<K, V> { Mp { m: Map::<K, V>::empty(), nn: false } }
pub open spec fn mp_get<K, V>(m: Mp<K, V>, k: K, z: V) -> V { if m.m.contains_key(k) { m.m[k] } else { z } }
pub open spec fn map_enum<K, V>(m: Mp<K, V>, s: Seq<K>) -> bool {
    &&& s.no_duplicates()
    &&& s.to_set() == m.m.dom()
    &&& forall|i: int| 0 <= i < s.len() ==> m.m.contains_key(#[trigger] s[i])
    &&& forall|k: K| #[trigger] m.m.contains_key(k) ==> s.contains(k)
}
pub open spec fn ch_nil<T>() -> Ch<T> { Ch { buf: Seq::<T>::empty(), closed: false } }
pub open spec fn ch_new<T>() -> Ch<T> { Ch { buf: Seq::<T>::empty(), closed: false } }
pub open spec fn ch_push<T>(c: Ch<T>, x: T) -> Ch<T> { Ch { buf: c.buf.push(x), ..c } }
pub open spec fn ch_pop<T>(c: Ch<T>) -> Ch<T> { Ch { buf: if c.buf.len() > 0 { c.buf.subrange(1, c.buf.len() as int) } else { c.buf }, ..c } }
pub open spec fn ch_close<T>(c: Ch<T>) -> Ch<T> { Ch { closed: true, ..c } }
pub open spec fn buf_empty() -> Buf { Buf { data: sempty(), inf: true, name: sempty() } }
pub open spec fn opq_nil() -> Opq { Opq { id: 0 } }
pub uninterp spec fn to_opq<T>(x: T) -> Opq;
pub uninterp spec fn from_opq<T>(x: Opq) -> T;
pub uninterp spec fn writer_of<T>(x: T) -> Buf;
pub uninterp spec fn err_opq(e: GoErr) -> Opq;
pub uninterp spec fn opq_closure(name: S) -> Opq;

// ---- integers ----
pub open spec fn shr64(a: u64, n: int) -> u64 { if n < 64 { a >> (n as u64) } else { 0 } }
pub open spec fn shl64(a: u64, n: int) -> u64 { if n < 64 { a << (n as u64) } else { 0 } }
pub open spec fn go_div(a: int, b: int) -> int {
    if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } }
}
pub open spec fn go_rem(a: int, b: int) -> int { a - b * go_div(a, b) }

// ---- strings ----
pub uninterp spec fn itoa(n: int) -> S;
pub uninterp spec fn go_quote(s: S) -> S;      // fmt's %q
pub uninterp spec fn rune_str(r: int) -> S;
pub uninterp spec fn str_lt(a: S, b: S) -> bool;
pub uninterp spec fn re_compile(p: S) -> Opq;
pub uninterp spec fn runes(s: S) -> Seq<int>;
pub uninterp spec fn rune_off(s: S, i: int) -> int;
pub uninterp spec fn err_text(e: GoErr) -> S;
pub uninterp spec fn path_abs(p: S) -> bool;
pub uninterp spec fn path_join(a: Seq<S>) -> S;
pub uninterp spec fn path_dir(p: S) -> S;

pub open spec fn has_prefix(s: S, p: S) -> bool { s.len() >= p.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn has_suffix(s: S, p: S) -> bool { s.len() >= p.len() && s.subrange(s.len() - p.len(), s.len() as int) == p }
pub open spec fn trim_prefix(s: S, p: S) -> S { if has_prefix(s, p) { s.subrange(p.len() as int, s.len() as int) } else { s } }
pub open spec fn trim_suffix(s: S, p: S) -> S { if has_suffix(s, p) { s.subrange(0, s.len() - p.len()) } else { s } }
pub open spec fn str_repeat(s: S, n: int) -> S decreases n { if n <= 0 { sempty() } else { str_repeat(s, n - 1) + s } }
pub open spec fn str_join(a: Seq<S>, sep: S) -> S decreases a.len() {
    if a.len() == 0 { sempty() } else if a.len() == 1 { a[0] } else { str_join(a.drop_last(), sep) + sep + a.last() }
}
pub open spec fn str_contains(s: S, sub: S) -> bool { exists|i: int| 0 <= i <= s.len() - sub.len() && #[trigger] s.subrange(i, i + sub.len()) == sub }
pub uninterp spec fn trim_space(s: S) -> S;
pub uninterp spec fn trim_left_func(s: S, f: Opq) -> S;
pub uninterp spec fn trim_right_func(s: S, f: Opq) -> S;
pub uninterp spec fn trim_left_set(s: S, set: S) -> S;
pub uninterp spec fn trim_right_set(s: S, set: S) -> S;
pub uninterp spec fn to_lower(s: S) -> S;
pub open spec fn replace_all(s: S, a: S, b: S) -> S decreases s.len() {
    if a.len() == 0 || s.len() < a.len() { s }
    else if has_prefix(s, a) { b + replace_all(s.subrange(a.len() as int, s.len() as int), a, b) }
    else { s.subrange(0, 1) + replace_all(s.subrange(1, s.len() as int), a, b) }
}
// assumed: %q begins and ends with a double quote
#[verifier::external_body]
pub proof fn ax_go_quote(s: S)
    ensures go_quote(s).len() >= 2, go_quote(s)[0] == 34u8, go_quote(s).last() == 34u8
{ }

// ---- general facts ----
// a nil map has no entries
pub open spec fn mp_live<K, V>(m: Mp<K, V>) -> Map<K, V> { if m.nn { m.m } else { Map::<K, V>::empty() } }
pub proof fn lemma_cat<T>(a: Sl<T>, b: Sl<T>)
    ensures a.s.len() == 0 ==> sl_cat(a, b).s == b.s, b.s.len() == 0 ==> sl_cat(a, b).s == a.s
{
    if a.s.len() == 0 { assert(a.s + b.s =~= b.s); }
    if b.s.len() == 0 { assert(a.s + b.s =~= a.s); }
}
pub proof fn lemma_replace_len(s: S, a: S, b: S)
    requires a.len() > 0, b.len() > 0
    ensures s.len() > 0 ==> replace_all(s, a, b).len() > 0,
        b.len() >= a.len() ==> replace_all(s, a, b).len() >= s.len(),
        s.len() > 1 && s[0] != a[0] ==> replace_all(s, a, b).len() > 1,
    decreases s.len()
{
    if s.len() >= a.len() {
        if has_prefix(s, a) { assert(s.subrange(0, a.len() as int)[0] == s[0]); lemma_replace_len(s.subrange(a.len() as int, s.len() as int), a, b); }
        else { lemma_replace_len(s.subrange(1, s.len() as int), a, b); }
    }
}
pub broadcast proof fn lemma_push_contains<T>(s: Seq<T>, v: T, x: T)
    ensures #[trigger] s.push(v).contains(x) == (v == x || s.contains(x))
{
    let p = s.push(v);
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(p[i] == x); }
    if v == x { assert(p[s.len() as int] == x); }
    if p.contains(x) { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; if i < s.len() { assert(s[i] == x); } }
}
// concatenation is written left to right
pub broadcast proof fn lemma_assoc(a: S, b: S, c: S)
    ensures #[trigger] (a + (b + c)) == (a + b) + c
{ assert((a + (b + c)) =~= (a + b) + c); }
// a single character at an end
pub broadcast proof fn lemma_suffix1(s: S, p: S)
    requires p.len() == 1
    ensures #[trigger] has_suffix(s, p) == (s.len() > 0 && s.last() == p[0])
{
    if s.len() > 0 { assert(s.subrange(s.len() - 1, s.len() as int) =~= seq![s.last()]); assert(p =~= seq![p[0]]); if s.last() != p[0] { assert(s.subrange(s.len() - 1, s.len() as int)[0] != p[0]); } }
}
pub broadcast proof fn lemma_prefix1(s: S, p: S)
    requires p.len() == 1
    ensures #[trigger] has_prefix(s, p) == (s.len() > 0 && s[0] == p[0])
{
    if s.len() > 0 { assert(s.subrange(0, 1) =~= seq![s[0]]); assert(p =~= seq![p[0]]); if s[0] != p[0] { assert(s.subrange(0, 1)[0] != p[0]); } }
}
pub broadcast group group_pre { lemma_push_contains, lemma_assoc, lemma_suffix1, lemma_prefix1 }
