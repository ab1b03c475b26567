verus! {
// ======================================================================
// Versions as seen by their users: an opaque value with the order proved in unit V01
// ======================================================================
#[verifier::external_body]
pub struct Version { _p: u64 }
pub uninterp spec fn ver_cmp(a: Version, b: Version) -> Ordering;
pub uninterp spec fn ver_str(v: Version) -> Seq<char>;
/// which texts parse as versions, and to what
pub uninterp spec fn ver_ok(s: Seq<char>) -> bool;
pub uninterp spec fn ver_of(s: Seq<char>) -> Version;
// proved in V01: v01_reflexive, v01_antisymmetric, v01_transitive
pub broadcast axiom fn axiom_ver_refl(a: Version) ensures #[trigger] ver_cmp(a, a) == Ordering::Equal;
pub broadcast axiom fn axiom_ver_anti(a: Version, b: Version) ensures #[trigger] ver_cmp(b, a) == rev(ver_cmp(a, b));
pub broadcast axiom fn axiom_ver_trans(a: Version, b: Version, c: Version)
    ensures #![trigger ver_cmp(a, b), ver_cmp(b, c)] consistent(ver_cmp(a, b), ver_cmp(b, c), ver_cmp(a, c));
pub broadcast group group_ver { axiom_ver_refl, axiom_ver_anti, axiom_ver_trans }
pub open spec fn ver_lt(a: Version, b: Version) -> bool { ver_cmp(a, b) == Ordering::Less }
pub open spec fn ver_le(a: Version, b: Version) -> bool { ver_cmp(a, b) != Ordering::Greater }
pub open spec fn ver_eq(a: Version, b: Version) -> bool { ver_cmp(a, b) == Ordering::Equal }

impl PartialEqSpecImpl for Version {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Version) -> bool { ver_cmp(*self, *other) == Ordering::Equal }
}
impl PartialOrdSpecImpl for Version {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Version) -> Option<Ordering> { Some(ver_cmp(*self, *other)) }
}
impl OrdSpecImpl for Version {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Version) -> Ordering { ver_cmp(*self, *other) }
}
// contracts of the comparison traits: proved for the real functions in unit V01
impl PartialEq for Version { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl Eq for Version {}
impl PartialOrd for Version { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
impl Ord for Version { #[verifier::external_body] fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } }
impl Version {
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == ver_str(*self) { unimplemented!() }
    #[verifier::external_body] pub fn rz_as_str(&self) -> (r: &str) ensures r@ == ver_str(*self) { unimplemented!() }
    #[verifier::external_body] pub fn parse(s: &str) -> (r: Result<Version, RezCoreError>)
        ensures r is Ok == ver_ok(s@), r is Ok ==> r->Ok_0 == ver_of(s@) { unimplemented!() }
}
} // verus!
