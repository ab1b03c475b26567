// The file system as the code under contract sees it (part of the trusted base).
// A path is the list of pieces it was joined from; the file system itself is opaque: queries are
// functions of its state, operations append to a log of what was attempted and whether it succeeded.
verus! {
pub type FsPath = Seq<Seq<char>>;
pub enum FsOp { Mkdir(FsPath), Create(FsPath), RemoveFile(FsPath), RemoveTree(FsPath), CopyFile(FsPath, FsPath), Link(FsPath, FsPath), RemoveDir(FsPath) }
pub type FsLog = Seq<(FsOp, bool)>;

/// what can be joined to a path
pub trait RzPiece { spec fn pv(&self) -> Seq<char>; }
impl<S: RzStr + ?Sized> RzPiece for S { open spec fn pv(&self) -> Seq<char> { self.tv() } }
#[verifier::external_body]
pub struct RzPath { _p: () }
impl View for RzPath { type V = FsPath; uninterp spec fn view(&self) -> FsPath; }
impl RzPath {
    #[verifier::external_body] pub fn rz_pjoin<S: RzPiece + ?Sized>(&self, s: &S) -> (r: RzPath) ensures r@ == self@.push(s.pv()) { unimplemented!() }
    #[verifier::external_body] pub fn rz_clone(&self) -> (r: RzPath) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn rz_to_path_buf(&self) -> (r: RzPath) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn rz_push<S: RzStr + ?Sized>(&mut self, s: &S) ensures final(self)@ == old(self)@.push(s.tv()) { unimplemented!() }
    #[verifier::external_body] pub fn rz_exists(&self, fs: &RzFs) -> (r: bool) ensures r == fs.exists_at(self@) { unimplemented!() }
    #[verifier::external_body] pub fn rz_is_dir(&self, fs: &RzFs) -> (r: bool) ensures r == fs.dir_at(self@) { unimplemented!() }
    #[verifier::external_body] pub fn rz_is_file(&self, fs: &RzFs) -> (r: bool) ensures r == fs.file_at(self@) { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&RzPath>) ensures self@.len() > 0 && plain_name(self@.last()) ==> r is Some && r->0@ == self@.drop_last() { unimplemented!() }
}

/// an empty path, which names nothing
pub struct PathBuf { pub p: () }
impl PathBuf { #[verifier::external_body] pub fn new() -> (r: RzPath) ensures r@ == Seq::<Seq<char>>::empty() { unimplemented!() } }
/// one name inside a directory: not empty, not `.` or `..`, no separator
pub open spec fn plain_name(s: Seq<char>) -> bool { s.len() > 0 && s != "."@ && s != ".."@ && !s.contains('/') }

/// what std::path makes of a text (its components)
pub enum Component { Prefix, RootDir, CurDir, ParentDir, Normal(String) }
pub uninterp spec fn comps(s: Seq<char>) -> Seq<Component>;
/// the text names exactly one entry of the directory it is joined to
pub open spec fn one_name(s: Seq<char>) -> bool { s.len() > 0 && comps(s).len() == 1 && comps(s)[0] is Normal }
#[verifier::external_body]
pub struct RzComps { _p: () }
impl View for RzComps { type V = Seq<Component>; uninterp spec fn view(&self) -> Seq<Component>; }
impl RzComps { #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Component>)
    ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first() { unimplemented!() } }
#[verifier::external_body]
pub struct RzRawPath { _p: () }
impl View for RzRawPath { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl RzRawPath { #[verifier::external_body] pub fn components(&self) -> (r: RzComps) ensures r@ == comps(self@) { unimplemented!() } }
#[verifier::external_body] pub fn rz_path_new(s: &str) -> (r: RzRawPath) ensures r@ == s@ { unimplemented!() }

#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum ErrorKind { AlreadyExists, NotFound, PermissionDenied, Interrupted, InvalidInput, InvalidData, IsADirectory, NotADirectory, DirectoryNotEmpty, Unsupported, UnexpectedEof, TimedOut, WouldBlock, ReadOnlyFilesystem, StorageFull, BrokenPipe, WriteZero, OutOfMemory, Other }
pub struct RzIoErr { pub k: ErrorKind }
impl RzIoErr { pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k } }

#[verifier::external_body]
pub struct RzFs { _p: () }
impl RzFs {
    pub uninterp spec fn log(&self) -> FsLog;
    pub uninterp spec fn exists_at(&self, p: FsPath) -> bool;
    pub uninterp spec fn dir_at(&self, p: FsPath) -> bool;
    pub uninterp spec fn file_at(&self, p: FsPath) -> bool;
    /// the names listed in a directory (None: an entry that could not be read)
    pub uninterp spec fn list_at(&self, p: FsPath) -> Seq<Option<Seq<char>>>;
    /// the times of an entry
    pub uninterp spec fn metas(&self) -> spec_fn(FsPath) -> RzMeta;
    #[verifier::external_body] pub fn create_dir_all(&mut self, p: &RzPath) -> (r: Result<(), RzIoErr>) ensures final(self).log() == old(self).log().push((FsOp::Mkdir(p@), r is Ok)), frame(*old(self), *final(self), p@) { unimplemented!() }
    #[verifier::external_body] pub fn create_new(&mut self, p: &RzPath) -> (r: Result<(), RzIoErr>) ensures final(self).log() == old(self).log().push((FsOp::Create(p@), r is Ok)), r is Err && r->Err_0.k is AlreadyExists ==> old(self).exists_at(p@), frame(*old(self), *final(self), p@) { unimplemented!() }
    #[verifier::external_body] pub fn remove_file(&mut self, p: &RzPath) -> (r: Result<(), RzIoErr>) ensures final(self).log() == old(self).log().push((FsOp::RemoveFile(p@), r is Ok)), frame(*old(self), *final(self), p@) { unimplemented!() }
    #[verifier::external_body] pub fn remove_dir_all(&mut self, p: &RzPath) -> (r: Result<(), RzIoErr>) ensures final(self).log() == old(self).log().push((FsOp::RemoveTree(p@), r is Ok)), frame(*old(self), *final(self), p@) { unimplemented!() }
    #[verifier::external_body] pub fn remove_dir(&mut self, p: &RzPath) -> (r: Result<(), RzIoErr>) ensures final(self).log() == old(self).log().push((FsOp::RemoveDir(p@), r is Ok)), frame(*old(self), *final(self), p@) { unimplemented!() }
    #[verifier::external_body] pub fn copy(&mut self, a: &RzPath, b: &RzPath) -> (r: Result<u64, RzIoErr>) ensures final(self).log() == old(self).log().push((FsOp::CopyFile(a@, b@), r is Ok)), frame(*old(self), *final(self), b@) { unimplemented!() }
    #[verifier::external_body] pub fn symlink(&mut self, t: &RzPath, p: &RzPath) -> (r: Result<(), RzIoErr>) ensures final(self).log() == old(self).log().push((FsOp::Link(t@, p@), r is Ok)), frame(*old(self), *final(self), p@) { unimplemented!() }
    /// where a symbolic link points (not modelled further)
    #[verifier::external_body] pub fn read_link(&self, p: &RzPath) -> (r: Result<RzPath, RzIoErr>) { unimplemented!() }
    #[verifier::external_body] pub fn metadata(&self, p: &RzPath) -> (r: Result<RzMeta, RzIoErr>) ensures r is Ok ==> r->Ok_0 == (self.metas())(p@) { unimplemented!() }
    #[verifier::external_body] pub fn read_dir(&self, p: &RzPath) -> (r: Result<Vec<Result<RzEntry, RzIoErr>>, RzIoErr>)
        ensures r is Ok ==> entries_of(r->Ok_0@, p@, self.list_at(p@), self.metas()) { unimplemented!() }
}
/// two paths name the same entry, or one lies inside the other (links resolved)
pub uninterp spec fn overlap(a: FsPath, b: FsPath) -> bool;
/// p is d or lies below it: plain names were joined to d
pub open spec fn below(p: FsPath, d: FsPath) -> bool { p.len() >= d.len() && p.subrange(0, d.len() as int) == d && forall|i: int| d.len() <= i < p.len() ==> plain_name(#[trigger] p[i]) }
/// what is below two places that do not overlap does not overlap (no links between them)
#[verifier::external_body]
pub proof fn axiom_overlap(a: FsPath, b: FsPath, a2: FsPath, b2: FsPath) requires !overlap(a, b), below(a2, a), below(b2, b) ensures !overlap(a2, b2) { }
/// an operation on p changes nothing elsewhere
#[verifier::opaque]
pub open spec fn frame(x: RzFs, y: RzFs, p: FsPath) -> bool { forall|q: FsPath| !overlap(q, p) ==> #[trigger] same_at(x, y, q) }
pub open spec fn same_at(x: RzFs, y: RzFs, q: FsPath) -> bool {
    x.exists_at(q) == y.exists_at(q) && x.dir_at(q) == y.dir_at(q) && x.file_at(q) == y.file_at(q) && x.list_at(q) == y.list_at(q) && (x.metas())(q) == (y.metas())(q)
}
pub open spec fn entries_of(v: Seq<Result<RzEntry, RzIoErr>>, p: FsPath, l: Seq<Option<Seq<char>>>, m: spec_fn(FsPath) -> RzMeta) -> bool {
    v.len() == l.len() && forall|i: int| 0 <= i < v.len() ==> match #[trigger] v[i] { Ok(e) => plain_name(e.nm()) && l[i] == Some(e.nm()) && e.pt() == p.push(e.nm()) && e.mt() == m(e.pt()), Err(_) => l[i] is None }
}
#[verifier::external_body]
pub struct RzEntry { _p: () }
impl RzEntry {
    pub uninterp spec fn nm(&self) -> Seq<char>;
    pub uninterp spec fn pt(&self) -> FsPath;
    #[verifier::external_body] pub fn file_type(&self) -> (r: Result<RzKind, RzIoErr>) ensures r is Ok ==> r->Ok_0 == self.mt().kind() { unimplemented!() }
    #[verifier::external_body] pub fn path(&self) -> (r: RzPath) ensures r@ == self.pt() { unimplemented!() }
    #[verifier::external_body] pub fn file_name(&self) -> (r: RzName) ensures r@ == self.nm() { unimplemented!() }
}
pub trait RzListing: Sized { spec fn n(&self) -> nat; fn count(self) -> (r: usize) ensures r == self.n(); fn flatten(self) -> (r: &'static Vec<RzEntry>); }
impl RzListing for Vec<Result<RzEntry, RzIoErr>> { open spec fn n(&self) -> nat { self@.len() } fn count(self) -> (r: usize) { self.len() } #[verifier::external_body] fn flatten(self) -> (r: &'static Vec<RzEntry>) { unimplemented!() } }
/// a file name (an OsString); its lossy text is taken to be the name
#[verifier::external_body]
pub struct RzName { _p: () }
impl View for RzName { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl RzPiece for RzName { open spec fn pv(&self) -> Seq<char> { self@ } }
impl RzPath {
    /// the last piece of a path made by joining a plain name (the names a directory lists are plain)
    #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&RzName>) ensures self@.len() > 0 ==> r is Some && r->0@ == self@.last() { unimplemented!() }
    #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: String) { unimplemented!() }
}
impl RzName { #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some ==> r->0@ == self@, r is None ==> self@.len() == 0 { unimplemented!() } }
impl RzName { #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }

// times: seconds are enough for what is proved
#[verifier::external_body] #[derive(Clone, Copy)]
pub struct Duration { _p: () }
impl View for Duration { type V = int; uninterp spec fn view(&self) -> int; }
impl PartialEqSpecImpl for Duration { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Duration) -> bool { self@ == o@ } }
impl PartialOrdSpecImpl for Duration { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<Ordering> { Some(int_cmp(self@, o@)) } }
impl PartialEq for Duration { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PartialOrd for Duration { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
impl Duration { #[verifier::external_body] pub fn from_secs(s: u64) -> (r: Duration) ensures r@ == s { unimplemented!() } }
#[verifier::external_body] #[derive(Clone, Copy)]
pub struct SystemTime { _p: () }
impl View for SystemTime { type V = int; uninterp spec fn view(&self) -> int; }
impl SystemTime {
    #[verifier::external_body] pub fn now() -> (r: SystemTime) ensures r@ == the_time() { unimplemented!() }
    #[verifier::external_body] pub fn duration_since(&self, o: SystemTime) -> (r: RzSince) ensures r@ == self@ - o@ { unimplemented!() }
}
impl SystemTime { #[verifier::external_body] pub fn rz_since(&self, o: SystemTime) -> (r: Result<Duration, RzIoErr>) ensures (r is Ok) == (self@ >= o@), r is Ok ==> r->Ok_0@ == self@ - o@ { unimplemented!() } }
impl Duration { #[verifier::external_body] pub fn as_secs(&self) -> (r: u64) ensures r == self@ { unimplemented!() } }
/// the start of time
#[verifier::external_body] pub exec const UNIX_EPOCH: SystemTime ensures UNIX_EPOCH@ == 0 { SystemTime { _p: () } }
/// the clock, read once by the operation under contract
pub uninterp spec fn the_time() -> int;
#[verifier::external_body]
pub struct RzSince { _p: () }
impl View for RzSince { type V = int; uninterp spec fn view(&self) -> int; }
impl RzSince { #[verifier::external_body] pub fn rz_unwrap_or_default(self) -> (r: Duration) ensures r@ == (if self@ >= 0 { self@ } else { 0 }) { unimplemented!() } }
/// what an entry is, links not followed
pub enum RzKind { Dir, File, Link, Other }
impl RzKind {
    pub fn rz_is_dir(&self, fs: &RzFs) -> (r: bool) ensures r == (self is Dir) { match self { RzKind::Dir => true, _ => false } }
    pub fn rz_is_file(&self, fs: &RzFs) -> (r: bool) ensures r == (self is File) { match self { RzKind::File => true, _ => false } }
    pub fn rz_is_symlink(&self, fs: &RzFs) -> (r: bool) ensures r == (self is Link) { match self { RzKind::Link => true, _ => false } }
}
#[verifier::external_body]
pub struct RzMeta { _p: () }
impl RzMeta {
    pub uninterp spec fn kind(&self) -> RzKind;
    pub uninterp spec fn born(&self) -> Option<int>;
    pub uninterp spec fn changed(&self) -> Option<int>;
    #[verifier::external_body] pub fn created(&self) -> (r: Result<SystemTime, RzIoErr>) ensures (r is Ok) == (self.born() is Some), r is Ok ==> r->Ok_0@ == self.born()->0 { unimplemented!() }
    #[verifier::external_body] pub fn modified(&self) -> (r: Result<SystemTime, RzIoErr>) ensures (r is Ok) == (self.changed() is Some), r is Ok ==> r->Ok_0@ == self.changed()->0 { unimplemented!() }
}
impl RzMeta { #[verifier::external_body] pub fn len(&self) -> (r: u64) { unimplemented!() } }
impl RzEntry {
    pub uninterp spec fn mt(&self) -> RzMeta;
    #[verifier::external_body] pub fn metadata(&self) -> (r: Result<RzMeta, RzIoErr>) ensures r is Ok ==> r->Ok_0 == self.mt() { unimplemented!() }
}
} // verus!
