verus! {
pub open spec fn gives(r: Result<i32, RezCoreError>, k: int) -> bool { r is Ok && r->Ok_0 == k }
pub open spec fn fam_of(loc: FsPath, n: Seq<char>) -> FsPath { loc.push(n) }
pub open spec fn pkg_of(loc: FsPath, n: Seq<char>, v: Seq<char>) -> FsPath { loc.push(n).push(v) }
pub open spec fn mark_of(loc: FsPath, n: Seq<char>, v: Seq<char>) -> FsPath { loc.push(n).push(".ignore"@ + v) }
pub open spec fn target(n: Seq<char>, v: Option<&str>) -> bool { one_name(n) && v is Some && one_name(v->0@) }

/// a version is being hidden: the family directory is made, then the marker is created (never overwritten)
pub open spec fn hiding(a: FsLog, b: FsLog, loc: FsPath, n: Seq<char>, v: Seq<char>, r: Result<i32, RezCoreError>) -> bool {
    ||| r is Err && b == a.push((FsOp::Mkdir(fam_of(loc, n)), false))
    ||| gives(r, 1) && b == a.push((FsOp::Mkdir(fam_of(loc, n)), true)).push((FsOp::Create(mark_of(loc, n, v)), true))
    ||| (gives(r, 0) || r is Err) && b == a.push((FsOp::Mkdir(fam_of(loc, n)), true)).push((FsOp::Create(mark_of(loc, n, v)), false))
}
/// the steps of a removal, in order: hide, delete the payload, show again - the last only once the payload is gone
pub open spec fn removing(a: FsLog, b: FsLog, loc: FsPath, n: Seq<char>, v: Seq<char>, r: Result<bool, RezCoreError>) -> bool {
    ||| r is Err && exists|h: Result<i32, RezCoreError>| #[trigger] hiding(a, b, loc, n, v, h) && h is Err
    ||| exists|m: FsLog, h: Result<i32, RezCoreError>| #[trigger] hiding(a, m, loc, n, v, h) && h is Ok && deleted(m, b, loc, n, v, r)
}
pub open spec fn deleted(m: FsLog, b: FsLog, loc: FsPath, n: Seq<char>, v: Seq<char>, r: Result<bool, RezCoreError>) -> bool {
    ||| r is Err && b == m.push((FsOp::RemoveTree(pkg_of(loc, n, v)), false))
    ||| r == Ok::<bool, RezCoreError>(true) && b == m.push((FsOp::RemoveTree(pkg_of(loc, n, v)), true)).push((FsOp::RemoveFile(mark_of(loc, n, v)), true))
    ||| (r == Ok::<bool, RezCoreError>(true) || r is Err) && b == m.push((FsOp::RemoveTree(pkg_of(loc, n, v)), true)).push((FsOp::RemoveFile(mark_of(loc, n, v)), false))
}

/// a family directory with a version in it that is not hidden by its name
pub open spec fn holds_versions(fs: RzFs, f: FsPath) -> bool {
    exists|i: int| 0 <= i < fs.list_at(f).len() && version_entry(fs, f, #[trigger] fs.list_at(f)[i])
}
pub open spec fn version_entry(fs: RzFs, f: FsPath, e: Option<Seq<char>>) -> bool {
    e is Some && fs.dir_at(f.push(e->0)) && !(e->0.len() > 0 && e->0[0] == '.')
}

/// a version whose marker is in place and at least that many days old
pub open spec fn ripe(fs: RzFs, loc: FsPath, n: Seq<char>, v: Seq<char>, days: int) -> bool {
    &&& v.len() > 0
    &&& fs.list_at(loc).contains(Some(n)) && fs.dir_at(loc.push(n))
    &&& fs.list_at(loc.push(n)).contains(Some(".ignore"@ + v)) && fs.file_at(mark_of(loc, n, v))
    &&& old_enough((fs.metas())(mark_of(loc, n, v)), days)
}
pub open spec fn old_enough(m: RzMeta, days: int) -> bool {
    let t = if m.born() is Some { m.born() } else { m.changed() };
    t is Some && (days <= 0 || the_time() - t->0 >= days * 86400)
}
pub open spec fn step_of(op: FsOp, loc: FsPath, n: Seq<char>, v: Seq<char>) -> bool {
    op == FsOp::Mkdir(fam_of(loc, n)) || op == FsOp::Create(mark_of(loc, n, v)) || op == FsOp::RemoveTree(pkg_of(loc, n, v)) || op == FsOp::RemoveFile(mark_of(loc, n, v))
}
pub open spec fn step_ok(op: FsOp, fs: RzFs, loc: FsPath, days: int) -> bool { exists|n: Seq<char>, v: Seq<char>| #[trigger] ripe(fs, loc, n, v, days) && step_of(op, loc, n, v) }
/// everything logged since belongs to the removal of a ripe version
pub open spec fn only_ripe(a: FsLog, b: FsLog, fs: RzFs, loc: FsPath, days: int) -> bool {
    a.len() <= b.len() && (forall|i: int| 0 <= i < a.len() ==> b[i] == a[i]) && forall|i: int| a.len() <= i < b.len() ==> step_ok((#[trigger] b[i]).0, fs, loc, days)
}
pub open spec fn all_ripe(fs: RzFs, loc: FsPath, c: Seq<(String, String)>, days: int) -> bool { forall|i: int| 0 <= i < c.len() ==> ripe(fs, loc, (#[trigger] c[i]).0@, c[i].1@, days) }
pub open spec fn hidden_name(s: Seq<char>) -> bool { s.len() > 0 && (s[0] == '.' || s[0] == '_') }
/// the entries of a directory that are shown: directories with an ordinary name and (for versions) no marker beside them
pub open spec fn shown_entry(fs: RzFs, p: FsPath, marks: bool, e: Option<Seq<char>>) -> bool {
    e is Some && fs.dir_at(p.push(e->0)) && !hidden_name(e->0) && !(marks && fs.file_at(p.push(".ignore"@ + e->0)))
}
pub open spec fn shown(fs: RzFs, p: FsPath, marks: bool, l: Seq<Option<Seq<char>>>) -> Seq<Seq<char>>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() } else {
        let s = shown(fs, p, marks, l.drop_last());
        if shown_entry(fs, p, marks, l.last()) { s.push(l.last()->0) } else { s }
    }
}
pub open spec fn named_as(v: Seq<PackageFamilyResource>, s: Seq<Seq<char>>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).name@ == s[i] }
pub open spec fn versions_as(v: Seq<PackageResource>, n: Seq<char>, s: Seq<Seq<char>>) -> bool {
    v.len() == s.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).package.name@ == n && v[i].package.version == (if ver_ok(s[i]) { Some(ver_of(s[i])) } else { None::<Version> })
}
pub proof fn lemma_shown(fs: RzFs, p: FsPath, marks: bool, l: Seq<Option<Seq<char>>>, k: int)
    requires 0 <= k < l.len()
    ensures shown(fs, p, marks, l.take(k + 1)) == (if shown_entry(fs, p, marks, l[k]) { shown(fs, p, marks, l.take(k)).push(l[k]->0) } else { shown(fs, p, marks, l.take(k)) })
{ assert(l.take(k + 1).drop_last() =~= l.take(k)); }
}
