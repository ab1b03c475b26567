verus! {
/// the requirement texts in force for a package with its selected variant
pub open spec fn eff(p: Package, vi: Option<usize>, t: Seq<char>) -> bool {
    (exists|i: int| 0 <= i < p.requires@.len() && (#[trigger] p.requires@[i])@ == t)
    || (vi is Some && vi->0 < p.variants@.len() && exists|i: int| 0 <= i < p.variants@[vi->0 as int]@.len() && (#[trigger] p.variants@[vi->0 as int]@[i])@ == t)
}
/// what a requirement text asks for: (is a conflict, requirement)
pub open spec fn asks(t: Seq<char>) -> Option<(bool, Requirement)> {
    let s = trim_l(t);
    if s.len() > 0 && s[0] == '!' {
        match req_parse(s.subrange(1, s.len() as int)) { Some(q) => Some((true, q)), None => None }
    } else {
        match req_parse(t) { Some(q) => Some((false, q)), None => None }
    }
}
/// requirements / conflicts a selected package contributes
pub open spec fn pkg_asks(p: Package, vi: Option<usize>, conflict: bool, q: Requirement) -> bool {
    exists|t: Seq<char>| #[trigger] eff(p, vi, t) && asks(t) == Some((conflict, q))
}
pub open spec fn readable(p: Package, vi: Option<usize>) -> bool { forall|t: Seq<char>| #[trigger] eff(p, vi, t) ==> asks(t) is Some }
pub open spec fn variant_ok(p: Package, vi: Option<usize>) -> bool {
    if p.variants@.len() == 0 { vi is None } else { vi is Some && vi->0 < p.variants@.len() }
}
/// the packages a repository offers under a name (fixed during a solve)
pub uninterp spec fn offered(m: RepositoryManager, p: Package) -> bool;
pub open spec fn usable(m: RepositoryManager, pre: bool, p: Package) -> bool {
    offered(m, p) && (pre || p.version is None || !ver_pre(p.version->0))
}
pub open spec fn same_name(i: ResolvedPackageInfo, r: Requirement) -> bool { i.package.name@ == r.name@ }
pub open spec fn uniq(rs: Seq<ResolvedPackageInfo>) -> bool {
    forall|i: int, j: int| 0 <= i < j < rs.len() ==> (#[trigger] rs[i]).package.name@ != (#[trigger] rs[j]).package.name@
}
/// a requirement in force: requested, or of a selected package
pub open spec fn in_force(req: Seq<Requirement>, rs: Seq<ResolvedPackageInfo>, r: Requirement) -> bool {
    (req.contains(r) && !r.conflict) || exists|i: int| 0 <= i < rs.len() && pkg_asks(*#[trigger] &rs[i].package, rs[i].variant_index, false, r)
}
pub open spec fn conflict_in_force(req: Seq<Requirement>, rs: Seq<ResolvedPackageInfo>, r: Requirement) -> bool {
    (req.contains(r) && r.conflict) || exists|i: int| 0 <= i < rs.len() && pkg_asks(*#[trigger] &rs[i].package, rs[i].variant_index, true, r)
}
pub open spec fn met(rs: Seq<ResolvedPackageInfo>, r: Requirement) -> bool {
    exists|i: int| 0 <= i < rs.len() && same_name(#[trigger] rs[i], r) && meets(rs[i].package, r)
}
pub open spec fn weak_absent(rs: Seq<ResolvedPackageInfo>, r: Requirement) -> bool {
    r.weak && forall|i: int| 0 <= i < rs.len() ==> !same_name(#[trigger] rs[i], r)
}
// ---- dependency graph of a solve
pub open spec fn edge(g: Map<Seq<char>, Vec<String>>, a: Seq<char>, b: Seq<char>) -> bool {
    g.contains_key(a) && exists|j: int| 0 <= j < g[a]@.len() && (#[trigger] g[a]@[j])@ == b
}
pub open spec fn walk(g: Map<Seq<char>, Vec<String>>, p: Seq<Seq<char>>) -> bool {
    p.len() >= 1 && forall|i: int| 0 <= i < p.len() - 1 ==> edge(g, #[trigger] p[i], p[i + 1])
}
pub open spec fn acyclic(g: Map<Seq<char>, Vec<String>>) -> bool { forall|p: Seq<Seq<char>>| #[trigger] walk(g, p) && p.len() >= 2 ==> p[0] != p.last() }
pub open spec fn closed(g: Map<Seq<char>, Vec<String>>, f: Set<Seq<char>>) -> bool { forall|a: Seq<char>, b: Seq<char>| f.contains(a) && #[trigger] edge(g, a, b) ==> f.contains(b) }
pub open spec fn acyc_in(g: Map<Seq<char>, Vec<String>>, f: Set<Seq<char>>) -> bool { forall|p: Seq<Seq<char>>| #[trigger] walk(g, p) && p.len() >= 2 && f.contains(p[0]) ==> p[0] != p.last() }
pub open spec fn tx(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
pub proof fn lemma_stays(g: Map<Seq<char>, Vec<String>>, f: Set<Seq<char>>, p: Seq<Seq<char>>, i: int, k: int)
    requires closed(g, f), walk(g, p), 0 <= i <= k < p.len(), f.contains(p[i])
    ensures f.contains(p[k])
    decreases k - i
{ if i < k { assert(edge(g, p[i], p[i + 1])); lemma_stays(g, f, p, i + 1, k); } }
pub proof fn lemma_finish(g: Map<Seq<char>, Vec<String>>, f: Set<Seq<char>>, v: Seq<char>)
    requires closed(g, f), acyc_in(g, f), !f.contains(v), forall|b: Seq<char>| #[trigger] edge(g, v, b) ==> f.contains(b)
    ensures closed(g, f.insert(v)), acyc_in(g, f.insert(v))
{
    assert forall|p: Seq<Seq<char>>| #[trigger] walk(g, p) && p.len() >= 2 && f.insert(v).contains(p[0]) implies p[0] != p.last() by {
        if !f.contains(p[0]) { assert(edge(g, p[0], p[1])); lemma_stays(g, f, p, 1, p.len() - 1); }
    }
}
/// edges between packages as the statement sees them
pub open spec fn dep_walk(rs: Seq<ResolvedPackageInfo>, p: Seq<Seq<char>>) -> bool {
    p.len() >= 1 && forall|k: int| 0 <= k < p.len() - 1 ==> dep_edge(rs, #[trigger] p[k], p[k + 1])
}
pub open spec fn dep_edge(rs: Seq<ResolvedPackageInfo>, a: Seq<char>, b: Seq<char>) -> bool {
    exists|i: int, q: Requirement| 0 <= i < rs.len() && (#[trigger] rs[i]).package.name@ == a && #[trigger] pkg_asks(rs[i].package, rs[i].variant_index, false, q) && q.name@ == b
}
pub open spec fn no_dep_cycle(rs: Seq<ResolvedPackageInfo>) -> bool { forall|p: Seq<Seq<char>>| #[trigger] dep_walk(rs, p) && p.len() >= 2 ==> p[0] != p.last() }

/// S01: the answer of a solve
pub open spec fn sol_meets(req: Seq<Requirement>, rs: Seq<ResolvedPackageInfo>, failed: Seq<Requirement>) -> bool {
    forall|r: Requirement| #[trigger] in_force(req, rs, r) ==> met(rs, r) || weak_absent(rs, r) || failed.contains(r)
}
pub open spec fn sol_conflicts(req: Seq<Requirement>, rs: Seq<ResolvedPackageInfo>, failed: Seq<Requirement>) -> bool {
    forall|c: Requirement, i: int| #[trigger] conflict_in_force(req, rs, c) && 0 <= i < rs.len() && same_name(#[trigger] rs[i], c) && meets(rs[i].package, c)
        ==> exists|k: int| 0 <= k < failed.len() && (#[trigger] failed[k]).name@ == c.name@
}
pub open spec fn called_for(req: Seq<Requirement>, rs: Seq<ResolvedPackageInfo>, x: ResolvedPackageInfo) -> bool {
    exists|r: Requirement| #[trigger] in_force(req, rs, r) && !r.weak && same_name(x, r)
}
pub open spec fn sol_minimal(req: Seq<Requirement>, rs: Seq<ResolvedPackageInfo>) -> bool { forall|i: int| 0 <= i < rs.len() ==> called_for(req, rs, #[trigger] rs[i]) }
pub open spec fn solution(m: RepositoryManager, pre: bool, strict: bool, req: Seq<Requirement>, rs: Seq<ResolvedPackageInfo>, failed: Seq<Requirement>) -> bool {
    &&& uniq(rs)
    &&& forall|i: int| 0 <= i < rs.len() ==> good(m, pre, #[trigger] rs[i])
    &&& sol_meets(req, rs, failed)
    &&& sol_conflicts(req, rs, failed)
    &&& sol_minimal(req, rs)
    &&& no_dep_cycle(rs)
    &&& strict ==> failed.len() == 0
}
} // verus!
verus! {
pub open spec fn idx_below(s: Seq<(usize, &Vec<String>)>, n: int) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 < n }
pub open spec fn txt_in(s: Seq<String>, t: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == t }
pub broadcast proof fn lemma_push_txt(s: Seq<String>, x: String, t: Seq<char>)
    ensures #[trigger] txt_in(s.push(x), t) == (txt_in(s, t) || x@ == t)
{
    if txt_in(s, t) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == t; assert(s.push(x)[i]@ == t); }
    if x@ == t { assert(s.push(x)[s.len() as int]@ == t); }
    if txt_in(s.push(x), t) { let i = choose|i: int| 0 <= i < s.push(x).len() && (#[trigger] s.push(x)[i])@ == t; if i < s.len() { assert(s[i]@ == t); } }
}
impl RepositoryManager {
    // assumed of every repository: it offers packages under their own name, the same ones throughout a solve
    #[verifier::external_body] pub fn find_packages(&self, name: &str) -> (r: Result<Vec<Package>, RezCoreError>)
        ensures r is Ok ==> forall|i: int| 0 <= i < r->Ok_0@.len() ==> offered(*self, #[trigger] r->Ok_0@[i]) && r->Ok_0@[i].name@ == name@ { unimplemented!() }
}
}
verus! {
/// requirement q is asked for by one of the first n texts
pub open spec fn said(s: Seq<String>, n: int, b: bool, q: Requirement) -> bool { exists|j: int| 0 <= j < n && asks((#[trigger] s[j])@) == Some((b, q)) }
pub broadcast proof fn lemma_said(s: Seq<String>, n: int, b: bool, q: Requirement)
    requires 0 <= n < s.len() ensures #[trigger] said(s, n + 1, b, q) == (said(s, n, b, q) || asks(s[n]@) == Some((b, q)))
{}
pub open spec fn cache_ok(d: DependencyResolver) -> bool {
    forall|k: Seq<char>, i: int| d.package_cache@.contains_key(k) && 0 <= i < d.package_cache@[k]@.len() ==> offered(d.repository_manager, #[trigger] d.package_cache@[k]@[i]) && d.package_cache@[k]@[i].name@ == k
}
pub open spec fn same_setup(a: DependencyResolver, b: DependencyResolver) -> bool { a.repository_manager == b.repository_manager && a.config == b.config && cache_ok(b) }
pub open spec fn dinv(d: DependencyResolver, s: ResolutionState) -> bool { inv(d.repository_manager, d.config.allow_prerelease, s) }
// ---- the solver's state: what its parts mean
pub open spec fn in_map(m: Map<Seq<char>, Vec<Requirement>>, r: Requirement) -> bool { exists|k: Seq<char>| m.contains_key(k) && (#[trigger] m[k])@.contains(r) }
pub type ReqMap = Map<Seq<char>, Vec<Requirement>>;
pub open spec fn needed_in(o: Seq<Requirement>, m: ReqMap, r: Requirement) -> bool { (o.contains(r) && !r.conflict) || in_map(m, r) }
pub open spec fn banned_in(o: Seq<Requirement>, m: ReqMap, r: Requirement) -> bool { (o.contains(r) && r.conflict) || in_map(m, r) }
pub open spec fn needed(s: ResolutionState, r: Requirement) -> bool { needed_in(s.original_requirements@, s.package_requirements@, r) }
pub open spec fn banned(s: ResolutionState, r: Requirement) -> bool { banned_in(s.original_requirements@, s.package_conflict_requirements@, r) }
pub open spec fn has_eqv(v: Seq<Requirement>, r: Requirement) -> bool { has(v, r) }
pub open spec fn is_active(a: Map<Seq<char>, Vec<Requirement>>, r: Requirement) -> bool { a.contains_key(r.name@) && has_eqv(a[r.name@]@, r) }
/// every constraint filed under a name is about that name
pub open spec fn filed(a: Map<Seq<char>, Vec<Requirement>>) -> bool {
    forall|k: Seq<char>, i: int| a.contains_key(k) && 0 <= i < a[k]@.len() ==> (#[trigger] a[k]@[i]).name@ == k
}
pub open spec fn con_in(o: Seq<Requirement>, m: ReqMap, c: ReqMap, a: ReqMap, x: Seq<Requirement>, g: Map<Seq<char>, Vec<String>>) -> bool {
    &&& forall|r: Requirement| #[trigger] needed_in(o, m, r) ==> is_active(a, r)
    &&& filed(a)
    &&& forall|r: Requirement| #[trigger] banned_in(o, c, r) ==> x.contains(r)
    &&& forall|k: Seq<char>, q: Requirement| m.contains_key(k) && #[trigger] m[k]@.contains(q) ==> edge(g, k, q.name@)
}
pub open spec fn con_ok(s: ResolutionState) -> bool {
    con_in(s.original_requirements@, s.package_requirements@, s.package_conflict_requirements@, s.active_requirements@, s.conflict_requirements@, s.dep_graph@)
}
pub open spec fn excl(cs: Seq<Requirement>, p: Package) -> bool {
    exists|j: int| 0 <= j < cs.len() && (#[trigger] cs[j]).name@ == p.name@ && meets(p, cs[j])
}
pub open spec fn sat_in(rs: Seq<ResolvedPackageInfo>, cs: Seq<Requirement>, r: Requirement) -> bool {
    exists|i: int| 0 <= i < rs.len() && same_name(#[trigger] rs[i], r) && meets(rs[i].package, r) && !excl(cs, rs[i].package)
}
pub open spec fn excluded(s: ResolutionState, p: Package) -> bool { excl(s.conflict_requirements@, p) }
pub open spec fn sat(s: ResolutionState, r: Requirement) -> bool { sat_in(s.resolved_packages@, s.conflict_requirements@, r) }
pub open spec fn has_name(rs: Seq<ResolvedPackageInfo>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).package.name@ == n }
pub open spec fn holds(p: ResolvedPackageInfo, a: Seq<Requirement>, b: Seq<Requirement>) -> bool {
    &&& forall|q: Requirement| #![trigger a.contains(q)] #![trigger pkg_asks(p.package, p.variant_index, false, q)] a.contains(q) == pkg_asks(p.package, p.variant_index, false, q)
    &&& forall|q: Requirement| #![trigger b.contains(q)] #![trigger pkg_asks(p.package, p.variant_index, true, q)] b.contains(q) == pkg_asks(p.package, p.variant_index, true, q)
}
pub open spec fn good(m: RepositoryManager, pre: bool, i: ResolvedPackageInfo) -> bool { usable(m, pre, i.package) && variant_ok(i.package, i.variant_index) && readable(i.package, i.variant_index) }
pub open spec fn all_good(m: RepositoryManager, pre: bool, rs: Seq<ResolvedPackageInfo>) -> bool { forall|x: ResolvedPackageInfo| #[trigger] rs.contains(x) ==> good(m, pre, x) }
pub open spec fn cand_opt(m: RepositoryManager, pre: bool, n: Seq<char>, o: Option<Package>) -> bool { o matches Some(p) ==> usable(m, pre, p) && p.name@ == n }
pub open spec fn held1_in(p: ResolvedPackageInfo, m: ReqMap, c: ReqMap) -> bool {
    let n = p.package.name@;
    m.contains_key(n) && c.contains_key(n) && holds(p, m[n]@, c[n]@)
}
pub open spec fn held1(s: ResolutionState, i: int) -> bool { held1_in(s.resolved_packages@[i], s.package_requirements@, s.package_conflict_requirements@) }
/// the maps hold exactly what the selected packages ask for, but for the package named x
pub open spec fn held_but(s: ResolutionState, x: Seq<char>) -> bool {
    &&& forall|i: int| 0 <= i < s.resolved_packages@.len() && (#[trigger] s.resolved_packages@[i]).package.name@ != x ==> held1(s, i)
    &&& forall|k: Seq<char>| #[trigger] s.package_requirements@.contains_key(k) && k != x ==> has_name(s.resolved_packages@, k)
    &&& forall|k: Seq<char>| #[trigger] s.package_conflict_requirements@.contains_key(k) && k != x ==> has_name(s.resolved_packages@, k)
}
pub open spec fn held_in(rs: Seq<ResolvedPackageInfo>, m: ReqMap, c: ReqMap) -> bool {
    &&& forall|i: int| 0 <= i < rs.len() ==> held1_in(#[trigger] rs[i], m, c)
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> has_name(rs, k)
    &&& forall|k: Seq<char>| #[trigger] c.contains_key(k) ==> has_name(rs, k)
}
pub open spec fn held(s: ResolutionState) -> bool { held_in(s.resolved_packages@, s.package_requirements@, s.package_conflict_requirements@) }
pub open spec fn reach_in(rs: Seq<ResolvedPackageInfo>, o: Seq<Requirement>, m: ReqMap) -> bool {
    forall|i: int| 0 <= i < rs.len() ==> exists|r: Requirement| #[trigger] needed_in(o, m, r) && !r.weak && same_name(#[trigger] rs[i], r)
}
pub open spec fn reach_ok(s: ResolutionState) -> bool { reach_in(s.resolved_packages@, s.original_requirements@, s.package_requirements@) }
/// the invariant of a solve
pub open spec fn inv(m: RepositoryManager, pre: bool, s: ResolutionState) -> bool {
    uniq(s.resolved_packages@) && all_good(m, pre, s.resolved_packages@) && held(s) && con_ok(s) && reach_ok(s)
}
/// a needed requirement is settled, or still queued
pub open spec fn settled_in(rs: Seq<ResolvedPackageInfo>, x: Seq<Requirement>, f: Seq<Requirement>, r: Requirement) -> bool { sat_in(rs, x, r) || weak_absent(rs, r) || f.contains(r) }
pub open spec fn settled(s: ResolutionState, r: Requirement) -> bool { settled_in(s.resolved_packages@, s.conflict_requirements@, s.failed_requirements@, r) }
pub open spec fn prog_in(o: Seq<Requirement>, m: ReqMap, q: Seq<Requirement>, rs: Seq<ResolvedPackageInfo>, x: Seq<Requirement>, f: Seq<Requirement>, but: Option<Requirement>) -> bool {
    forall|r: Requirement| #[trigger] needed_in(o, m, r) ==> but == Some(r) || q.contains(r) || settled_in(rs, x, f, r)
}
pub open spec fn progress_opt(s: ResolutionState, but: Option<Requirement>) -> bool {
    prog_in(s.original_requirements@, s.package_requirements@, s.requirement_queue@, s.resolved_packages@, s.conflict_requirements@, s.failed_requirements@, but)
}
pub open spec fn progress(s: ResolutionState) -> bool { progress_opt(s, None) }
pub open spec fn progress_but(s: ResolutionState, q: Requirement) -> bool { progress_opt(s, Some(q)) }
/// the parts that decide what is needed, banned, satisfied
pub open spec fn same_core(a: ResolutionState, b: ResolutionState) -> bool {
    &&& a.original_requirements == b.original_requirements
    &&& a.resolved_packages == b.resolved_packages
    &&& a.conflict_requirements == b.conflict_requirements
    &&& a.active_requirements == b.active_requirements
    &&& a.package_requirements == b.package_requirements
    &&& a.package_conflict_requirements == b.package_conflict_requirements
    &&& a.dep_graph == b.dep_graph
}
pub open spec fn same_work(a: ResolutionState, b: ResolutionState) -> bool { same_core(a, b) && a.requirement_queue == b.requirement_queue && a.failed_requirements == b.failed_requirements }
pub proof fn lemma_links(m: RepositoryManager, pre: bool, s: ResolutionState)
    requires inv(m, pre, s)
    ensures forall|r: Requirement| #[trigger] in_force(s.original_requirements@, s.resolved_packages@, r) == needed(s, r),
        forall|r: Requirement| #[trigger] conflict_in_force(s.original_requirements@, s.resolved_packages@, r) == banned(s, r),
{
    let rs = s.resolved_packages@;
    assert forall|r: Requirement| #[trigger] in_force(s.original_requirements@, rs, r) == needed(s, r) by {
        if in_map(s.package_requirements@, r) {
            let k = choose|k: Seq<char>| s.package_requirements@.contains_key(k) && (#[trigger] s.package_requirements@[k])@.contains(r);
            assert(has_name(rs, k));
            let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).package.name@ == k;
            assert(held1_in(rs[i], s.package_requirements@, s.package_conflict_requirements@));
        }
        if exists|i: int| 0 <= i < rs.len() && pkg_asks(*#[trigger] &rs[i].package, rs[i].variant_index, false, r) {
            let i = choose|i: int| 0 <= i < rs.len() && pkg_asks(*#[trigger] &rs[i].package, rs[i].variant_index, false, r);
            assert(rs[i] == s.resolved_packages@[i]);
            assert(held1_in(rs[i], s.package_requirements@, s.package_conflict_requirements@));
            assert(s.package_requirements@[rs[i].package.name@]@.contains(r));
        }
    }
    assert forall|r: Requirement| #[trigger] conflict_in_force(s.original_requirements@, rs, r) == banned(s, r) by {
        if in_map(s.package_conflict_requirements@, r) {
            let k = choose|k: Seq<char>| s.package_conflict_requirements@.contains_key(k) && (#[trigger] s.package_conflict_requirements@[k])@.contains(r);
            assert(has_name(rs, k));
            let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).package.name@ == k;
            assert(held1_in(rs[i], s.package_requirements@, s.package_conflict_requirements@));
        }
        if exists|i: int| 0 <= i < rs.len() && pkg_asks(*#[trigger] &rs[i].package, rs[i].variant_index, true, r) {
            let i = choose|i: int| 0 <= i < rs.len() && pkg_asks(*#[trigger] &rs[i].package, rs[i].variant_index, true, r);
            assert(rs[i] == s.resolved_packages@[i]);
            assert(held1_in(rs[i], s.package_requirements@, s.package_conflict_requirements@));
            assert(s.package_conflict_requirements@[rs[i].package.name@]@.contains(r));
        }
    }
}
}
verus! {
// ---- what is still required by something that stays
pub open spec fn by_request(s: ResolutionState, n: Seq<char>) -> bool {
    exists|i: int| 0 <= i < s.original_requirements@.len() && !(#[trigger] s.original_requirements@[i]).weak && !s.original_requirements@[i].conflict && s.original_requirements@[i].name@ == n
}
pub open spec fn by_pkg(s: ResolutionState, f: Set<Seq<char>>, n: Seq<char>) -> bool {
    exists|k: Seq<char>, q: Requirement| f.contains(k) && s.package_requirements@.contains_key(k) && #[trigger] s.package_requirements@[k]@.contains(q) && !q.weak && q.name@ == n
}
pub open spec fn reachable_ok(s: ResolutionState, f: Set<Seq<char>>) -> bool { forall|n: Seq<char>| #[trigger] f.contains(n) ==> by_request(s, n) || by_pkg(s, f, n) }
pub open spec fn in_first(v: Seq<ResolvedPackageInfo>, n: int, x: ResolvedPackageInfo) -> bool { exists|j: int| 0 <= j < n && #[trigger] v[j] == x }
pub open spec fn submap_by(a: Map<Seq<char>, Vec<Requirement>>, b: Map<Seq<char>, Vec<Requirement>>, f: Set<Seq<char>>) -> bool {
    forall|k: Seq<char>| #[trigger] a.contains_key(k) ==> b.contains_key(k) && a[k] == b[k] && f.contains(k)
}
}
verus! {
pub broadcast proof fn lemma_push_name(s: Seq<ResolvedPackageInfo>, x: ResolvedPackageInfo, n: Seq<char>)
    ensures #[trigger] has_name(s.push(x), n) == (has_name(s, n) || x.package.name@ == n)
{
    if has_name(s, n) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).package.name@ == n; assert(s.push(x)[i].package.name@ == n); }
    if x.package.name@ == n { assert(s.push(x)[s.len() as int].package.name@ == n); }
    if has_name(s.push(x), n) { let i = choose|i: int| 0 <= i < s.push(x).len() && (#[trigger] s.push(x)[i]).package.name@ == n; if i < s.len() { assert(s[i].package.name@ == n); } }
}
}
verus! {
pub proof fn lemma_edges(m: RepositoryManager, pre: bool, s: ResolutionState, p: Seq<Seq<char>>)
    requires inv(m, pre, s), dep_walk(s.resolved_packages@, p)
    ensures walk(s.dep_graph@, p)
{
    let rs = s.resolved_packages@;
    assert forall|k: int| 0 <= k < p.len() - 1 implies edge(s.dep_graph@, #[trigger] p[k], p[k + 1]) by {
        assert(dep_edge(rs, p[k], p[k + 1]));
        let (i, q) = choose|i: int, q: Requirement| 0 <= i < rs.len() && (#[trigger] rs[i]).package.name@ == p[k] && #[trigger] pkg_asks(rs[i].package, rs[i].variant_index, false, q) && q.name@ == p[k + 1];
        assert(held1_in(rs[i], s.package_requirements@, s.package_conflict_requirements@));
        assert(s.package_requirements@[p[k]]@.contains(q));
    }
}
/// a finished solve, and the failures still standing, make a solution
pub proof fn lemma_solution(m: RepositoryManager, pre: bool, strict: bool, s: ResolutionState, q: Seq<Requirement>, fs: Seq<Requirement>, failed: Seq<Requirement>)
    requires inv(m, pre, s), acyclic(s.dep_graph@), q.len() == 0,
        prog_in(s.original_requirements@, s.package_requirements@, q, s.resolved_packages@, s.conflict_requirements@, fs, None),
        forall|r: Requirement| #[trigger] fs.contains(r) && is_active(s.active_requirements@, r) && !sat(s, r) && !weak_absent(s.resolved_packages@, r) ==> failed.contains(r),
        strict ==> failed.len() == 0,
    ensures solution(m, pre, strict, s.original_requirements@, s.resolved_packages@, failed)
{
    let (o, rs, x) = (s.original_requirements@, s.resolved_packages@, s.conflict_requirements@);
    lemma_links(m, pre, s);
    assert forall|i: int| 0 <= i < rs.len() implies good(m, pre, #[trigger] rs[i]) by { assert(rs.contains(rs[i])); }
    assert forall|r: Requirement| needed(s, r) implies sat(s, r) || weak_absent(rs, r) || failed.contains(r) by {
        assert(needed_in(o, s.package_requirements@, r));
        assert(settled_in(rs, x, fs, r));
    }
    assert forall|r: Requirement| #[trigger] in_force(o, rs, r) implies met(rs, r) || weak_absent(rs, r) || failed.contains(r) by {
        assert(needed(s, r));
        if sat(s, r) { let i = choose|i: int| 0 <= i < rs.len() && same_name(#[trigger] rs[i], r) && meets(rs[i].package, r) && !excl(x, rs[i].package); assert(same_name(rs[i], r)); }
    }
    assert forall|i: int| 0 <= i < rs.len() implies called_for(o, rs, #[trigger] rs[i]) by {
        let r = choose|r: Requirement| #[trigger] needed_in(o, s.package_requirements@, r) && !r.weak && same_name(rs[i], r);
        assert(needed(s, r)); assert(in_force(o, rs, r));
    }
    assert forall|c: Requirement, i: int| #[trigger] conflict_in_force(o, rs, c) && 0 <= i < rs.len() && same_name(#[trigger] rs[i], c) && meets(rs[i].package, c)
            implies exists|k: int| 0 <= k < failed.len() && (#[trigger] failed[k]).name@ == c.name@ by {
        assert(banned(s, c)); assert(x.contains(c));
        let r = choose|r: Requirement| #[trigger] needed_in(o, s.package_requirements@, r) && !r.weak && same_name(rs[i], r);
        assert(needed(s, r));
        assert(excl(x, rs[i].package)) by { let j = choose|j: int| 0 <= j < x.len() && x[j] == c; assert(x[j].name@ == rs[i].package.name@); }
        assert(!weak_absent(rs, r));
        if sat(s, r) {
            let k = choose|k: int| 0 <= k < rs.len() && same_name(#[trigger] rs[k], r) && meets(rs[k].package, r) && !excl(x, rs[k].package);
            if k < i { assert(rs[k].package.name@ != rs[i].package.name@); } else if i < k { assert(rs[i].package.name@ != rs[k].package.name@); }
            assert(false);
        }
        assert(failed.contains(r));
        let k = choose|k: int| 0 <= k < failed.len() && failed[k] == r; assert(failed[k].name@ == c.name@);
    }
    assert forall|p: Seq<Seq<char>>| #[trigger] dep_walk(rs, p) && p.len() >= 2 implies p[0] != p.last() by { lemma_edges(m, pre, s, p); }
    assert(sol_meets(o, rs, failed)); assert(sol_conflicts(o, rs, failed)); assert(sol_minimal(o, rs)); assert(no_dep_cycle(rs));
}
}
