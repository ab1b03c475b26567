verus! {
// ======================================================================
// What a solve has to deliver
// ======================================================================
/// satisfaction of a version by a requirement (decided in R01)
pub uninterp spec fn req_sat(r: Requirement, v: Version) -> bool;
/// the parser of requirement texts (outside the verifier): its answer
pub uninterp spec fn req_parse(s: Seq<char>) -> Option<Requirement>;
pub uninterp spec fn ver_pre(v: Version) -> bool;
/// derived equality of requirements: versions inside compare by the version order, so it is coarser than identity
pub uninterp spec fn req_eqv(a: Requirement, b: Requirement) -> bool;
pub axiom fn axiom_req_eqv()
    ensures forall|a: Requirement| #[trigger] req_eqv(a, a),
        forall|a: Requirement, b: Requirement| #[trigger] req_eqv(a, b) ==> a.name@ == b.name@ && a.weak == b.weak && a.conflict == b.conflict;
impl RzEqv for Requirement { open spec fn eqv(&self, o: &Requirement) -> bool { req_eqv(*self, *o) } }
impl Requirement {
    #[verifier::external_body] pub fn is_satisfied_by(&self, version: &Version) -> (r: bool) ensures r == req_sat(*self, *version) { unimplemented!() }
    #[verifier::external_body] pub fn rz_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] pub fn rz_parse_req(s: &str) -> (r: Result<Requirement, String>)
        ensures match r { Ok(q) => req_parse(s@) == Some(q), Err(_) => req_parse(s@) is None } { unimplemented!() }
}
pub trait RzParseReq { fn rz_parse_requirement(&self) -> Result<Requirement, String>; }
impl RzParseReq for str {
    #[verifier::external_body] fn rz_parse_requirement(&self) -> (r: Result<Requirement, String>)
        ensures match r { Ok(q) => req_parse(self@) == Some(q), Err(_) => req_parse(self@) is None } { unimplemented!() }
}
impl Version { #[verifier::external_body] pub fn is_prerelease(&self) -> (r: bool) ensures r == ver_pre(*self) { unimplemented!() } }
#[verifier::external_body] pub fn rz_ver_eq(a: &Option<Version>, b: &Option<Version>) -> (r: bool) { unimplemented!() }

/// a package meets a requirement on its name; a package without version meets them all
pub open spec fn meets(p: Package, r: Requirement) -> bool { match p.version { Some(v) => req_sat(r, v), None => true } }
pub proof fn lemma_sorts()
    ensures total_preorder(|a: Package, b: Package| newest_first(a, b)), total_preorder(|a: Package, b: Package| oldest_first(a, b))
{
    broadcast use group_ver;
    let c = |a: Package, b: Package| newest_first(a, b);
    assert forall|a: Package, b: Package, d: Package| #[trigger] c(a, b) != Ordering::Greater && #[trigger] c(b, d) != Ordering::Greater implies c(a, d) != Ordering::Greater by {
        if a.version is Some && b.version is Some && d.version is Some { axiom_ver_trans(d.version->0, b.version->0, a.version->0); }
    }
    let e = |a: Package, b: Package| oldest_first(a, b);
    assert forall|a: Package, b: Package, d: Package| #[trigger] e(a, b) != Ordering::Greater && #[trigger] e(b, d) != Ordering::Greater implies e(a, d) != Ordering::Greater by {
        if a.version is Some && b.version is Some && d.version is Some { axiom_ver_trans(a.version->0, b.version->0, d.version->0); }
    }
}
pub open spec fn wanted(pre: bool, r: Requirement, p: Package) -> bool { meets(p, r) && (pre || p.version is None || !ver_pre(p.version->0)) }
pub open spec fn newest_first(a: Package, b: Package) -> Ordering {
    match (b.version, a.version) { (Some(x), Some(y)) => ver_cmp(x, y), (Some(_), None) => Ordering::Greater, (None, Some(_)) => Ordering::Less, (None, None) => Ordering::Equal }
}
pub open spec fn oldest_first(a: Package, b: Package) -> Ordering {
    match (a.version, b.version) { (Some(x), Some(y)) => ver_cmp(x, y), (Some(_), None) => Ordering::Less, (None, Some(_)) => Ordering::Greater, (None, None) => Ordering::Equal }
}
}
