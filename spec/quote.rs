// ---- which strings need quotes ----
pub uninterp spec fn uni_space(r: int) -> bool;      // unicode.IsSpace
pub open spec fn in_set(set: S, r: int) -> bool { exists|i: int| 0 <= i < set.len() && #[trigger] (set[i] as int) == r }
pub open spec fn has_any(rs: Seq<int>, set: S) -> bool { exists|i: int| 0 <= i < rs.len() && in_set(set, #[trigger] rs[i]) }

// escape: text written so far and the previous character, after k characters
pub open spec fn esc_text(rs: Seq<int>, k: int) -> S decreases k {
    if k <= 0 { sempty() } else {
        let d = esc_text(rs, k - 1); let pc = esc_prev(rs, k - 1); let cc = rs[k - 1];
        if pc == 92 || (pc == 36 && cc == 123) { d + rune_str(pc) + rune_str(cc) }
        else { let e = if pc == 36 { d + rune_str(pc) } else { d }; if cc != 92 && cc != 36 { e + rune_str(cc) } else { e } }
    }
}
pub open spec fn esc_prev(rs: Seq<int>, k: int) -> int decreases k {
    if k <= 0 { 0 } else { let pc = esc_prev(rs, k - 1); let cc = rs[k - 1]; if pc == 92 || (pc == 36 && cc == 123) { 0 } else { cc } }
}
pub open spec fn escaped(s: S) -> S {
    let rs = runes(s);
    if !has_any(rs, lit!("{}$;\\")) { s }
    else if rs.len() > 0 && (rs.last() == 92 || rs.last() == 36) { esc_text(rs, rs.len() as int) + rune_str(rs.last()) }
    else { esc_text(rs, rs.len() as int) }
}
// the characters from i on, after prev and last
pub open spec fn quote_from(rs: Seq<int>, i: int, expanding: bool, prev: int, last: int) -> bool decreases rs.len() - i {
    if i < 0 || i >= rs.len() { expanding || last == 92 || last == 36 }
    else { let c = rs[i];
        if prev == 92 { quote_from(rs, i + 1, expanding, 0, c) }
        else if uni_space(c) || in_set(lit!("{;\"'"), c) { true }
        else if (expanding && prev == 36 && c == 123) || (!expanding && c == 125) { true }
        else { quote_from(rs, i + 1, if (expanding && c == 125) || (!expanding && prev == 36 && c == 123) { !expanding } else { expanding }, c, c) } }
}
pub open spec fn tail_runes(s: S) -> Seq<int> { runes(s.subrange(rune_len(s), s.len() as int)) }
pub open spec fn needs_quote(s: S) -> bool {
    let e = escaped(s);
    s.len() == 0 || e.len() == 0 || uni_space(rune_at(e)) || in_set(lit!("{};\"'#"), rune_at(e)) || has_prefix(e, lit!("${"))
        || quote_from(tail_runes(e), 0, false, 0, rune_at(e))
}
pub uninterp spec fn rune_at(s: S) -> int;
pub uninterp spec fn rune_len(s: S) -> int;
// assumed: decoding a nonempty string takes at least one byte and no more than there are
#[verifier::external_body]
pub proof fn ax_rune_len(s: S)
    requires s.len() > 0
    ensures 1 <= rune_len(s) <= s.len()
{ }
