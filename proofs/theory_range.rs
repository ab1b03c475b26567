verus! {
//@enum crates/rez-next-version/src/range/types.rs Bound
//@struct crates/rez-next-version/src/range/types.rs BoundSet
//@struct crates/rez-next-version/src/range/mod.rs VersionRange

/// ~=X.Y is below (X+1).0, ~=X.Y.Z... is below X.(Y+1).0; no upper limit when the component is not a 64-bit number
pub open spec fn next_num(t: Seq<char>) -> Option<int> {
    match parse_nat(t) { Some(n) => if n < u64::MAX { Some(n + 1) } else { None }, None => None }
}
pub open spec fn compat_upper(v: Version) -> Option<Seq<char>> {
    let p = split_spec(ver_str(v), '.');
    if p.len() < 2 { None }
    else if p.len() == 2 { match next_num(p[0]) { Some(n) => Some(dec_str(n) + ".0"@), None => None } }
    else { match next_num(p[1]) { Some(n) => Some(p[0] + "."@ + dec_str(n) + ".0"@), None => None } }
}
/// what one bound means
pub open spec fn bound_sem(b: Bound, u: Version) -> bool {
    match b {
        Bound::Ge(v) => ver_le(v, u),
        Bound::Gt(v) => ver_lt(v, u),
        Bound::Le(v) => ver_le(u, v),
        Bound::Lt(v) => ver_lt(u, v),
        Bound::Eq(v) => ver_eq(u, v),
        Bound::Ne(v) => !ver_eq(u, v),
        Bound::Compatible(v) => ver_le(v, u) && (compat_upper(v) matches Some(t) ==> ver_ok(t) ==> ver_lt(u, ver_of(t))),
        Bound::Any => true,
        Bound::None => false,
    }
}
pub open spec fn set_sem(s: BoundSet, u: Version) -> bool { forall|i: int| 0 <= i < s.bounds@.len() ==> bound_sem(#[trigger] s.bounds@[i], u) }
pub open spec fn sets_sem(s: Seq<BoundSet>, u: Version) -> bool { exists|i: int| 0 <= i < s.len() && set_sem(#[trigger] s[i], u) }
/// a range: a union of conjunctions, minus the subtracted ranges
pub open spec fn range_sem(r: VersionRange, u: Version) -> bool
    decreases r
{
    if !r.is_parsed || r.bound_sets@.len() == 0 { true }
    else { sets_sem(r.bound_sets@, u) && forall|i: int| 0 <= i < r.subtract_from@.len() ==> !range_sem(#[trigger] r.subtract_from@[i], u) }
}
} // verus!
