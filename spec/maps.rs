// ---- map-like blocks ----
pub open spec fn map_known(b: S) -> bool { map_default(b) != 0 }
pub open spec fn map_default(b: S) -> u64 {
    if b == lit!("charset_map") || b == lit!("geo") || b == lit!("map") || b == lit!("split_clients") || b == lit!("otel_exporter") { 0x2 }
    else if b == lit!("match") || b == lit!("types") || b == lit!("geoip2") { 0x1000 }
    else { 0 }
}
// special parameters; 0: none
pub open spec fn map_special(b: S, p: S) -> u64 {
    if b == lit!("geo") && (p == lit!("ranges") || p == lit!("proxy_recursive")) { 0x1 }
    else if b == lit!("map") && (p == lit!("volatile") || p == lit!("hostnames")) { 0x1 }
    else if b == lit!("geoip2") && p == lit!("auto_reload") { 0x2 }
    else { 0 }
}
pub open spec fn map_mask(b: S, p: S) -> u64 { if map_special(b, p) != 0 { map_special(b, p) } else { map_default(b) } }
pub open spec fn map_accepts(b: S, p: S, a: Seq<S>, term: S) -> bool {
    !map_known(b) || (term == lit!(";") && args_fit(map_mask(b, p), a))
}

pub open spec fn code_map_entry(b: S) -> mapParameterMasks { mp_get(glob!("crossplane.mapBodies"), b, zero_mapParameterMasks()) }
pub proof fn lemma_maps(b: S, p: S)
    ensures
        glob!("crossplane.mapBodies").m.contains_key(b) == map_known(b),
        code_map_entry(b).defaultMasks == map_default(b),
        code_map_entry(b).specialParameterMasks.m.contains_key(p) == (map_special(b, p) != 0),
        mp_get(code_map_entry(b).specialParameterMasks, p, 0u64) == map_special(b, p),
{
    lits_ax();
}
