// the package commands: which package is meant, where it is, and what may be done to the tree
verus! {
#[verifier::external_body] pub struct RepositoryManager { _p: u64 }
/// the packages the repositories hold under a name
pub uninterp spec fn offer(m: RepositoryManager, n: Seq<char>) -> Seq<Package>;
impl RepositoryManager {
    #[verifier::external_body] pub fn find_packages(&self, name: &str) -> (r: Result<Vec<Package>, RezCoreError>) ensures r matches Ok(v) ==> v@ == offer(*self, name@) { unimplemented!() }
    #[verifier::external_body] pub fn list_packages(&self) -> (r: Result<Vec<String>, RezCoreError>) { unimplemented!() }
    /// the repositories searched, in order
    pub uninterp spec fn roots(&self) -> Seq<FsPath>;
    #[verifier::external_body] pub fn new() -> (r: RepositoryManager) ensures r.roots() == Seq::<FsPath>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn add_repository(&mut self, s: Box<SimpleRepository>) ensures final(self).roots() == old(self).roots().push(s.root()) { unimplemented!() }
}
pub open spec fn roots_of(v: Seq<RzPath>) -> Seq<FsPath> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body] pub struct SimpleRepository { _p: u64 }
impl SimpleRepository { pub uninterp spec fn root(&self) -> FsPath; #[verifier::external_body] pub fn new(p: RzPath, n: String) -> (r: SimpleRepository) ensures r.root() == p@ { unimplemented!() } }
/// the configuration is only read
pub struct RezCoreConfig { pub packages_path: Vec<String> }
impl RezCoreConfig { #[verifier::external_body] pub fn load() -> (r: RezCoreConfig) { unimplemented!() } }
pub uninterp spec fn home(s: Seq<char>) -> FsPath;
#[verifier::external_body] pub fn expand_home_path(s: &str) -> (r: RzPath) ensures r@ == home(s@) { unimplemented!() }

pub open spec fn opt_cmp(a: Option<Version>, b: Option<Version>) -> Ordering {
    match (a, b) { (Some(x), Some(y)) => ver_cmp(x, y), (Some(_), None) => Ordering::Greater, (None, Some(_)) => Ordering::Less, (None, None) => Ordering::Equal }
}
pub trait RzOptCmp { spec fn oc(&self, o: &Self) -> Ordering; fn rz_ocmp(&self, o: &Self) -> (r: Ordering) ensures r == self.oc(o); }
impl RzOptCmp for Option<Version> { open spec fn oc(&self, o: &Self) -> Ordering { opt_cmp(*self, *o) } #[verifier::external_body] fn rz_ocmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl RzOptCmp for Version { open spec fn oc(&self, o: &Self) -> Ordering { ver_cmp(*self, *o) } #[verifier::external_body] fn rz_ocmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
pub open spec fn newest_first(a: Package, b: Package) -> Ordering { opt_cmp(b.version, a.version) }
pub proof fn lemma_sorts() ensures total_preorder(|a: Package, b: Package| newest_first(a, b))
{
    broadcast use group_ver;
    let c = |a: Package, b: Package| newest_first(a, b);
    assert forall|a: Package, b: Package, d: Package| #[trigger] c(a, b) != Ordering::Greater && #[trigger] c(b, d) != Ordering::Greater implies c(a, d) != Ordering::Greater by {
        if a.version is Some && b.version is Some && d.version is Some { axiom_ver_trans(d.version->0, b.version->0, a.version->0); }
    }
}
pub open spec fn vtext(p: Package) -> Seq<char> { match p.version { Some(v) => ver_str(v), None => "unknown"@ } }
pub open spec fn has_text(p: Package, t: Seq<char>) -> bool { p.version is Some && ver_str(p.version->0) == t }
/// the package a command means: of that version, or the latest
pub open spec fn meant(o: Seq<Package>, v: Option<Seq<char>>, p: Package) -> bool {
    match v {
        Some(t) => o.contains(p) && has_text(p, t),
        None => o.contains(p) && forall|q: Package| #[trigger] o.contains(q) ==> opt_cmp(q.version, p.version) != Ordering::Greater,
    }
}
pub proof fn lemma_latest(o: Seq<Package>, s: Seq<Package>)
    requires s.len() > 0, sorted_by(s, |a: Package, b: Package| newest_first(a, b)), forall|x: Package| #[trigger] s.contains(x) == o.contains(x)
    ensures meant(o, None, s[0])
{
    broadcast use group_ver;
    assert(s.contains(s[0]));
    assert forall|q: Package| #[trigger] o.contains(q) implies opt_cmp(q.version, s[0].version) != Ordering::Greater by {
        assert(s.contains(q));
        let j = choose|j: int| 0 <= j < s.len() && s[j] == q;
        if j > 0 { assert(newest_first(s[0], s[j]) != Ordering::Greater); }
    }
}
pub open spec fn text_of(v: Option<&str>) -> Option<Seq<char>> { match v { Some(s) => Some(s@), None => None } }
pub open spec fn text_of_s(v: Option<String>) -> Option<Seq<char>> { match v { Some(s) => Some(s@), None => None } }
// byte positions in a text
pub uninterp spec fn boundary(s: Seq<char>, p: int) -> bool;
pub uninterp spec fn cidx(s: Seq<char>, p: int) -> int;
pub trait RzBytePos {
    spec fn bv(&self) -> Seq<char>;
    fn rz_rfind_c(&self, c: char) -> (r: Option<usize>)
        requires c as u32 <= 127
        ensures r is None == !self.bv().contains(c),
            r is Some ==> { let (p, k) = (r->0 as int, cidx(self.bv(), r->0 as int)); p < usize::MAX && boundary(self.bv(), p) && boundary(self.bv(), p + 1) && cidx(self.bv(), p + 1) == k + 1
                && 0 <= k < self.bv().len() && self.bv()[k] == c && !self.bv().subrange(k + 1, self.bv().len() as int).contains(c) };
    fn rz_sub(&self, a: usize, b: usize) -> (r: &str)
        requires a == 0 || boundary(self.bv(), a as int), boundary(self.bv(), b as int), a <= b
        ensures r@ == self.bv().subrange(if a == 0 { 0 } else { cidx(self.bv(), a as int) }, cidx(self.bv(), b as int));
    fn rz_from(&self, a: usize) -> (r: &str)
        requires a == 0 || boundary(self.bv(), a as int)
        ensures r@ == self.bv().subrange(if a == 0 { 0 } else { cidx(self.bv(), a as int) }, self.bv().len() as int);
}
impl RzBytePos for str {
    open spec fn bv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn rz_rfind_c(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn rz_sub(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn rz_from(&self, a: usize) -> (r: &str) { unimplemented!() }
}
/// ends the process
#[verifier::external_body] pub fn rz_exit(c: i32) -> (r: ()) ensures false { unimplemented!() }
/// name-version: split at the last dash if a digit follows it
pub open spec fn spec_parsed(t: Seq<char>, n: Seq<char>, v: Option<Seq<char>>) -> bool {
    if exists|k: int| #[trigger] version_dash(t, k) { v is Some && version_dash(t, n.len() as int) && t == n + seq!['-'] + v->0 } else { n == t && v is None }
}
pub open spec fn version_dash(t: Seq<char>, k: int) -> bool { 0 <= k < t.len() && t[k] == '-' && !t.subrange(k + 1, t.len() as int).contains('-') && k + 1 < t.len() && '0' <= t[k + 1] && t[k + 1] <= '9' }
pub proof fn lemma_spec_none(t: Seq<char>)
    ensures !t.contains('-') ==> forall|k: int| !version_dash(t, k),
        forall|k: int| #![trigger t[k]] 0 <= k < t.len() && t[k] == '-' && !t.subrange(k + 1, t.len() as int).contains('-') ==> (forall|j: int| #[trigger] version_dash(t, j) ==> j == k)
            && t == t.subrange(0, k) + seq!['-'] + t.subrange(k + 1, t.len() as int),
{
    if !t.contains('-') { assert forall|k: int| !version_dash(t, k) by { if version_dash(t, k) { assert(t.contains(t[k])); } } }
    assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() && t[k] == '-' && !t.subrange(k + 1, t.len() as int).contains('-') implies (forall|j: int| #[trigger] version_dash(t, j) ==> j == k)
            && t == t.subrange(0, k) + seq!['-'] + t.subrange(k + 1, t.len() as int) by {
        assert(t =~= t.subrange(0, k) + seq!['-'] + t.subrange(k + 1, t.len() as int));
        assert forall|j: int| #[trigger] version_dash(t, j) implies j == k by {
            if j > k { let u = t.subrange(k + 1, t.len() as int); assert(u[j - k - 1] == '-'); assert(u.contains('-')); }
            if j < k { let u = t.subrange(j + 1, t.len() as int); assert(u[k - j - 1] == '-'); assert(u.contains('-')); }
        }
    }
}
/// where a package is kept in a repository: name/version, or name-version
pub open spec fn dir1(b: FsPath, p: Package) -> FsPath { b.push(p.name@).push(vtext(p)) }
pub open spec fn dir2(b: FsPath, p: Package) -> FsPath { b.push(p.name@ + "-"@ + vtext(p)) }
/// the place is the first that exists, in the order of the paths
pub open spec fn first_at(fs: RzFs, paths: Seq<RzPath>, p: Package, at: FsPath) -> bool {
    exists|i: int| #[trigger] at_base(fs, paths, p, at, i)
}
pub open spec fn at_base(fs: RzFs, paths: Seq<RzPath>, p: Package, at: FsPath, i: int) -> bool {
    &&& 0 <= i < paths.len() && none_before(fs, paths, p, i)
    &&& fs.exists_at(at) && (at == dir1(paths[i]@, p) || at == dir2(paths[i]@, p) && !fs.exists_at(dir1(paths[i]@, p)))
}
pub open spec fn none_before(fs: RzFs, paths: Seq<RzPath>, p: Package, i: int) -> bool {
    forall|j: int| 0 <= j < i ==> !fs.exists_at(dir1((#[trigger] paths[j])@, p)) && !fs.exists_at(dir2(paths[j]@, p))
}
} // verus!
