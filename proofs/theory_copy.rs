// copying a tree
verus! {
pub open spec fn ext(a: FsLog, b: FsLog) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) == a }
/// what a copy may do: make directories and files below the destination, read below the source
pub open spec fn copy_op(o: FsOp, s: FsPath, d: FsPath) -> bool {
    match o { FsOp::Mkdir(p) => below(p, d), FsOp::CopyFile(a, p) => below(a, s) && below(p, d), FsOp::Link(_, p) => below(p, d), _ => false }
}
pub open spec fn only_copies(a: FsLog, b: FsLog, s: FsPath, d: FsPath) -> bool { ext(a, b) && forall|i: int| a.len() <= i < b.len() ==> copy_op((#[trigger] b[i]).0, s, d) }
/// nothing below p changed
pub open spec fn kept(x: RzFs, y: RzFs, p: FsPath) -> bool { forall|q: FsPath| below(q, p) ==> #[trigger] same_at(x, y, q) }
/// the operation was done, successfully, after the first n of the log
pub open spec fn did(l: FsLog, n: int, o: FsOp) -> bool { exists|i: int| n <= i < l.len() && 0 <= i && #[trigger] l[i] == (o, true) }
/// every entry below s, k levels deep, was copied to its place below d (`links`: symbolic links are not followed)
pub open spec fn copied(fs: RzFs, l: FsLog, n: int, s: FsPath, d: FsPath, links: bool, k: nat) -> bool decreases k {
    k > 0 ==> (links || did(l, n, FsOp::Mkdir(d))) && forall|i: int| 0 <= i < fs.list_at(s).len() ==> {
        let e = #[trigger] fs.list_at(s)[i];
        e is Some && (if links { match (fs.metas())(s.push(e->0)).kind() { RzKind::Dir => copied(fs, l, n, s.push(e->0), d.push(e->0), links, (k - 1) as nat), RzKind::File => did(l, n, FsOp::CopyFile(s.push(e->0), d.push(e->0))), RzKind::Link => linked(l, n, d.push(e->0)), RzKind::Other => true } }
        else if fs.dir_at(s.push(e->0)) { copied(fs, l, n, s.push(e->0), d.push(e->0), links, (k - 1) as nat) } else { did(l, n, FsOp::CopyFile(s.push(e->0), d.push(e->0))) })
    }
}
pub open spec fn entry_copied(fs: RzFs, l: FsLog, n: int, s: FsPath, d: FsPath, e: Option<Seq<char>>, links: bool, k: nat) -> bool {
        e is Some && (if links { match (fs.metas())(s.push(e->0)).kind() { RzKind::Dir => copied(fs, l, n, s.push(e->0), d.push(e->0), links, k), RzKind::File => did(l, n, FsOp::CopyFile(s.push(e->0), d.push(e->0))), RzKind::Link => linked(l, n, d.push(e->0)), RzKind::Other => true } }
        else if fs.dir_at(s.push(e->0)) { copied(fs, l, n, s.push(e->0), d.push(e->0), links, k) } else { did(l, n, FsOp::CopyFile(s.push(e->0), d.push(e->0))) })
}
pub open spec fn linked(l: FsLog, n: int, b: FsPath) -> bool { exists|t: FsPath| #[trigger] did(l, n, FsOp::Link(t, b)) }
pub open spec fn all_copied(fs: RzFs, l: FsLog, n: int, s: FsPath, d: FsPath, links: bool) -> bool { forall|k: nat| #[trigger] copied(fs, l, n, s, d, links, k) }

pub proof fn lemma_below_refl(p: FsPath) ensures below(p, p) { assert(p.subrange(0, p.len() as int) =~= p); }
pub proof fn lemma_below_push(p: FsPath, d: FsPath, n: Seq<char>) requires below(p, d), plain_name(n) ensures below(p.push(n), d)
{ assert(p.push(n).subrange(0, d.len() as int) =~= p.subrange(0, d.len() as int)); }
pub proof fn lemma_below_trans(q: FsPath, p: FsPath, d: FsPath) requires below(q, p), below(p, d) ensures below(q, d)
{ assert(q.subrange(0, d.len() as int) =~= q.subrange(0, p.len() as int).subrange(0, d.len() as int));
  assert forall|i: int| d.len() <= i < q.len() implies plain_name(#[trigger] q[i]) by { if i < p.len() { assert(q[i] == q.subrange(0, p.len() as int)[i]); assert(plain_name(p[i])); } } }
pub proof fn lemma_ext_did(a: FsLog, b: FsLog, n: int, n2: int, o: FsOp) requires ext(a, b), n2 <= n, did(a, n, o) ensures did(b, n2, o)
{ let i = choose|i: int| n <= i < a.len() && 0 <= i && a[i] == (o, true); assert(b.subrange(0, a.len() as int)[i] == b[i]); assert(b[i] == (o, true)); }
pub proof fn lemma_ext_trans(a: FsLog, b: FsLog, c: FsLog) requires ext(a, b), ext(b, c) ensures ext(a, c)
{ assert(c.subrange(0, a.len() as int) =~= c.subrange(0, b.len() as int).subrange(0, a.len() as int)); }
pub proof fn lemma_ext_push(a: FsLog, b: FsLog, x: (FsOp, bool)) requires ext(a, b) ensures ext(a, b.push(x)), ext(b, b.push(x))
{ assert(b.push(x).subrange(0, b.len() as int) =~= b); assert(b.push(x).subrange(0, a.len() as int) =~= b.subrange(0, a.len() as int)); }
pub proof fn lemma_only_trans(a: FsLog, b: FsLog, c: FsLog, s: FsPath, d: FsPath, s2: FsPath, d2: FsPath)
    requires only_copies(a, b, s, d), only_copies(b, c, s2, d2), below(s2, s), below(d2, d) ensures only_copies(a, c, s, d)
{
    lemma_ext_trans(a, b, c);
    assert forall|i: int| a.len() <= i < c.len() implies copy_op((#[trigger] c[i]).0, s, d) by {
        if i < b.len() { assert(c[i] == c.subrange(0, b.len() as int)[i]); assert(copy_op(b[i].0, s, d)); }
        else { assert(copy_op(c[i].0, s2, d2)); match c[i].0 { FsOp::Mkdir(p) => lemma_below_trans(p, d2, d), FsOp::CopyFile(x, p) => { lemma_below_trans(x, s2, s); lemma_below_trans(p, d2, d) }, FsOp::Link(_, p) => lemma_below_trans(p, d2, d), _ => {} } }
    }
}
pub proof fn lemma_only_push(a: FsLog, b: FsLog, x: (FsOp, bool), s: FsPath, d: FsPath) requires only_copies(a, b, s, d), copy_op(x.0, s, d) ensures only_copies(a, b.push(x), s, d)
{ lemma_ext_push(a, b, x); assert forall|i: int| a.len() <= i < b.push(x).len() implies copy_op((#[trigger] b.push(x)[i]).0, s, d) by { if i < b.len() { assert(copy_op(b[i].0, s, d)); } } }
/// an operation below the destination leaves the source alone
pub proof fn lemma_kept(x: RzFs, y: RzFs, s: FsPath, d: FsPath, p: FsPath) requires frame(x, y, p), below(p, d), !overlap(s, d) ensures kept(x, y, s)
{ reveal(frame); assert forall|q: FsPath| below(q, s) implies #[trigger] same_at(x, y, q) by { axiom_overlap(s, d, q, p); } }
pub proof fn lemma_ext_refl(a: FsLog) ensures ext(a, a) { assert(a.subrange(0, a.len() as int) =~= a); }
/// one operation after another, below the same place
pub proof fn lemma_frame_trans(x: RzFs, y: RzFs, z: RzFs, d: FsPath, p: FsPath) requires frame(x, y, d), frame(y, z, p), below(p, d) ensures frame(x, z, d)
{ reveal(frame); assert forall|q: FsPath| !overlap(q, d) implies #[trigger] same_at(x, z, q) by { lemma_below_refl(q); axiom_overlap(q, d, q, p); assert(same_at(x, y, q)); assert(same_at(y, z, q)); } }
pub proof fn lemma_frame_refl(x: RzFs, d: FsPath) ensures frame(x, x, d) { reveal(frame); }
/// what the copy of one entry may do is within what the copy of its directory may do
pub proof fn lemma_entry_step(x: RzFs, y: RzFs, s: FsPath, d: FsPath, n: Seq<char>)
    requires frame(x, y, d), only_copies(x.log(), y.log(), s, d), !overlap(s, d), plain_name(n)
    ensures !overlap(s.push(n), d.push(n)), below(s.push(n), s), below(d.push(n), d),
        forall|m: FsLog| #[trigger] only_copies(y.log(), m, s.push(n), d.push(n)) ==> only_copies(x.log(), m, s, d),
        forall|z: RzFs| #[trigger] frame(y, z, d.push(n)) ==> frame(x, z, d),
        forall|b: bool| #[trigger] only_copies(x.log(), y.log().push((FsOp::CopyFile(s.push(n), d.push(n)), b)), s, d),
        forall|t: FsPath, b: bool| #[trigger] only_copies(x.log(), y.log().push((FsOp::Link(t, d.push(n)), b)), s, d),
{
    lemma_below_refl(s); lemma_below_refl(d); lemma_below_push(s, s, n); lemma_below_push(d, d, n);
    axiom_overlap(s, d, s.push(n), d.push(n));
    assert forall|m: FsLog| #[trigger] only_copies(y.log(), m, s.push(n), d.push(n)) implies only_copies(x.log(), m, s, d) by { lemma_only_trans(x.log(), y.log(), m, s, d, s.push(n), d.push(n)); }
    assert forall|z: RzFs| #[trigger] frame(y, z, d.push(n)) implies frame(x, z, d) by { lemma_frame_trans(x, y, z, d, d.push(n)); }
    assert forall|b: bool| #[trigger] only_copies(x.log(), y.log().push((FsOp::CopyFile(s.push(n), d.push(n)), b)), s, d) by { lemma_only_push(x.log(), y.log(), (FsOp::CopyFile(s.push(n), d.push(n)), b), s, d); }
    assert forall|t: FsPath, b: bool| #[trigger] only_copies(x.log(), y.log().push((FsOp::Link(t, d.push(n)), b)), s, d) by { lemma_only_push(x.log(), y.log(), (FsOp::Link(t, d.push(n)), b), s, d); }
}
/// the entries before i of the directory s were copied
pub open spec fn upto(fs: RzFs, l: FsLog, n: int, s: FsPath, d: FsPath, links: bool, i: int) -> bool {
    forall|k: nat, j: int| 0 <= j < i ==> #[trigger] entry_copied(fs, l, n, s, d, fs.list_at(s)[j], links, k)
}
pub proof fn lemma_start(x: RzFs, y: RzFs, s: FsPath, d: FsPath, b: bool)
    requires !overlap(s, d), frame(x, y, d), y.log() == x.log().push((FsOp::Mkdir(d), b))
    ensures only_copies(x.log(), y.log(), s, d), kept(x, y, s), y.list_at(s) == x.list_at(s), b ==> did(y.log(), x.log().len() as int, FsOp::Mkdir(d))
{
    lemma_below_refl(s); lemma_below_refl(d);
    assert(x.log().subrange(0, x.log().len() as int) =~= x.log());
    assert(only_copies(x.log(), x.log(), s, d));
    lemma_only_push(x.log(), x.log(), (FsOp::Mkdir(d), b), s, d);
    lemma_kept(x, y, s, d, d);
    assert(same_at(x, y, s));
    assert(y.log()[x.log().len() as int] == (FsOp::Mkdir(d), b));
}
pub open spec fn entry_done(fs: RzFs, l: FsLog, n: int, s: FsPath, d: FsPath, e: Option<Seq<char>>, links: bool) -> bool { forall|k: nat| #[trigger] entry_copied(fs, l, n, s, d, e, links, k) }
pub proof fn lemma_start0(x: RzFs, s: FsPath, d: FsPath) ensures only_copies(x.log(), x.log(), s, d), kept(x, x, s), frame(x, x, d)
{ assert(x.log().subrange(0, x.log().len() as int) =~= x.log()); lemma_frame_refl(x, d); }
/// one more entry was copied
pub proof fn lemma_next(x: RzFs, y: RzFs, z: RzFs, n: int, s: FsPath, d: FsPath, links: bool, i: int)
    requires !overlap(s, d), frame(x, y, d), frame(x, z, d), ext(y.log(), z.log()), upto(x, y.log(), n, s, d, links, i), links || did(y.log(), n, FsOp::Mkdir(d)), 0 <= i < x.list_at(s).len(),
        x.list_at(s)[i] is Some,
        entry_done(x, z.log(), n, s, d, x.list_at(s)[i], links) || entry_done(y, z.log(), n, s, d, x.list_at(s)[i], links),
    ensures upto(x, z.log(), n, s, d, links, i + 1), links || did(z.log(), n, FsOp::Mkdir(d))
{
    if did(y.log(), n, FsOp::Mkdir(d)) { lemma_ext_did(y.log(), z.log(), n, n, FsOp::Mkdir(d)); }
    lemma_below_refl(s); lemma_below_refl(d); lemma_kept(x, y, s, d, d); axiom_names(x, s); axiom_names(y, s);
    assert(same_at(x, y, s));
    assert(z.log().subrange(0, z.log().len() as int) =~= z.log());
    assert forall|q: FsPath| below(q, s) implies #[trigger] same_at(y, x, q) by { assert(same_at(x, y, q)); }
    assert forall|k: nat, j: int| 0 <= j < i + 1 implies #[trigger] entry_copied(x, z.log(), n, s, d, x.list_at(s)[j], links, k) by {
        if j < i { assert(entry_copied(x, y.log(), n, s, d, x.list_at(s)[j], links, k)); lemma_entry_mono(x, x, y.log(), z.log(), n, n, s, d, s, j, links, k); }
        else if !entry_copied(x, z.log(), n, s, d, x.list_at(s)[i], links, k) { assert(entry_copied(y, z.log(), n, s, d, x.list_at(s)[i], links, k)); lemma_entry_mono(y, x, z.log(), z.log(), n, n, s, d, s, i, links, k); }
    }
}
pub proof fn lemma_end(x: RzFs, l: FsLog, n: int, s: FsPath, d: FsPath, links: bool)
    requires upto(x, l, n, s, d, links, x.list_at(s).len() as int), links || did(l, n, FsOp::Mkdir(d)) ensures all_copied(x, l, n, s, d, links)
{ assert forall|k: nat| #[trigger] copied(x, l, n, s, d, links, k) by { if k > 0 { assert forall|i: int| 0 <= i < x.list_at(s).len() implies entry_copied(x, l, n, s, d, #[trigger] x.list_at(s)[i], links, (k - 1) as nat) by { } } } }
pub proof fn lemma_kept_trans(x: RzFs, y: RzFs, z: RzFs, s: FsPath, s2: FsPath) requires kept(x, y, s), kept(y, z, s2), below(s, s2) ensures kept(x, z, s)
{ assert forall|q: FsPath| below(q, s) implies #[trigger] same_at(x, z, q) by { lemma_below_trans(q, s, s2); assert(same_at(x, y, q)); assert(same_at(y, z, q)); } }
/// more operations, or another state with the same source, keep what was copied
pub proof fn lemma_copied_mono(x: RzFs, y: RzFs, l: FsLog, m: FsLog, n: int, n2: int, s: FsPath, d: FsPath, r: FsPath, links: bool, k: nat)
    requires copied(x, l, n, s, d, links, k), ext(l, m), n2 <= n, kept(x, y, r), below(s, r), names_ok(x, r)
    ensures copied(y, m, n2, s, d, links, k)
    decreases k
{
    if k > 0 {
        if did(l, n, FsOp::Mkdir(d)) { lemma_ext_did(l, m, n, n2, FsOp::Mkdir(d)); }
        assert(same_at(x, y, s));
        let kk = (k - 1) as nat;
        assert forall|i: int| 0 <= i < y.list_at(s).len() implies entry_copied(y, m, n2, s, d, #[trigger] y.list_at(s)[i], links, kk) by {
            let e = x.list_at(s)[i];
            assert(entry_copied(x, l, n, s, d, e, links, kk));
            if copied(x, l, n, s.push(e->0), d.push(e->0), links, kk) { lemma_below_push(s, r, e->0); lemma_copied_mono(x, y, l, m, n, n2, s.push(e->0), d.push(e->0), r, links, kk); }
            lemma_entry_step2(x, y, l, m, n, n2, s, d, r, e, links, kk);
        }
    }
}
proof fn lemma_entry_step2(x: RzFs, y: RzFs, l: FsLog, m: FsLog, n: int, n2: int, s: FsPath, d: FsPath, r: FsPath, e: Option<Seq<char>>, links: bool, k: nat)
    requires entry_copied(x, l, n, s, d, e, links, k), ext(l, m), n2 <= n, kept(x, y, r), below(s, r), e is Some, plain_name(e->0),
        copied(x, l, n, s.push(e->0), d.push(e->0), links, k) ==> copied(y, m, n2, s.push(e->0), d.push(e->0), links, k)
    ensures entry_copied(y, m, n2, s, d, e, links, k)
{
    let (a, b) = (s.push(e->0), d.push(e->0));
    lemma_below_push(s, r, e->0);
    assert(same_at(x, y, a));
    if did(l, n, FsOp::CopyFile(a, b)) { lemma_ext_did(l, m, n, n2, FsOp::CopyFile(a, b)); }
    if linked(l, n, b) { let t = choose|t: FsPath| #[trigger] did(l, n, FsOp::Link(t, b)); lemma_ext_did(l, m, n, n2, FsOp::Link(t, b)); assert(did(m, n2, FsOp::Link(t, b))); }
}
pub proof fn lemma_entry_mono(x: RzFs, y: RzFs, l: FsLog, m: FsLog, n: int, n2: int, s: FsPath, d: FsPath, r: FsPath, i: int, links: bool, k: nat)
    requires 0 <= i < x.list_at(s).len(), entry_copied(x, l, n, s, d, x.list_at(s)[i], links, k), ext(l, m), n2 <= n, kept(x, y, r), below(s, r), names_ok(x, r)
    ensures entry_copied(y, m, n2, s, d, x.list_at(s)[i], links, k)
{
    let e = x.list_at(s)[i];
    if copied(x, l, n, s.push(e->0), d.push(e->0), links, k) { lemma_below_push(s, r, e->0); lemma_copied_mono(x, y, l, m, n, n2, s.push(e->0), d.push(e->0), r, links, k); }
    lemma_entry_step2(x, y, l, m, n, n2, s, d, r, e, links, k);
}
/// the names a directory lists are plain
pub open spec fn names_ok(x: RzFs, r: FsPath) -> bool { forall|s: FsPath, i: int| below(s, r) && 0 <= i < x.list_at(s).len() && (#[trigger] x.list_at(s)[i]) is Some ==> plain_name(x.list_at(s)[i]->0) }
#[verifier::external_body]
pub proof fn axiom_names(x: RzFs, r: FsPath) ensures names_ok(x, r) { }
pub proof fn lemma_kept_refl(x: RzFs, s: FsPath) ensures kept(x, x, s) { }

/// the code's own test for overlap is trusted to resolve paths as the file system does
#[verifier::external_body] pub fn paths_overlap(a: &RzPath, b: &RzPath) -> (r: bool) ensures r == overlap(a@, b@) { unimplemented!() }
/// a copy: an old destination is cleared only on request, then everything is copied; the source is never touched
pub open spec fn copying(x: RzFs, y: RzFs, s: FsPath, d: FsPath, force: bool, ok: bool) -> bool {
    if overlap(s, d) { !ok && y == x }
    else { exists|m: RzFs| #[trigger] cleared(x, m, d, force) && only_copies(m.log(), y.log(), s, d) && frame(m, y, d)
            && (m.log().len() > x.log().len() && !m.log().last().1 ==> y == m && !ok) && (ok ==> all_copied(m, y.log(), m.log().len() as int, s, d, false)) }
}
pub open spec fn cleared(x: RzFs, m: RzFs, d: FsPath, force: bool) -> bool {
    if force && x.exists_at(d) { frame(x, m, d) && exists|b: bool| m.log() == #[trigger] x.log().push((FsOp::RemoveTree(d), b)) } else { m == x }
}
pub proof fn lemma_copying(x: RzFs, s: FsPath, d: FsPath, force: bool)
    requires !overlap(s, d)
    ensures
        !(force && x.exists_at(d)) ==> cleared(x, x, d, force),
        force && x.exists_at(d) ==> forall|m: RzFs, b: bool| #[trigger] frame(x, m, d) && m.log() == #[trigger] x.log().push((FsOp::RemoveTree(d), b)) ==> cleared(x, m, d, force) && (!b ==> copying(x, m, s, d, force, false)),
        forall|m: RzFs, y: RzFs| #[trigger] cleared(x, m, d, force) && #[trigger] frame(m, y, d) && only_copies(m.log(), y.log(), s, d) && (m.log().len() > x.log().len() ==> m.log().last().1) ==>
            copying(x, y, s, d, force, false) && (all_copied(m, y.log(), m.log().len() as int, s, d, false) ==> copying(x, y, s, d, force, true)),
{
    lemma_frame_refl(x, d);
    assert forall|m: RzFs, b: bool| force && x.exists_at(d) && #[trigger] frame(x, m, d) && m.log() == #[trigger] x.log().push((FsOp::RemoveTree(d), b)) implies cleared(x, m, d, force) && (!b ==> copying(x, m, s, d, force, false)) by {
        assert(cleared(x, m, d, force));
        lemma_frame_refl(m, d); lemma_ext_refl(m.log());
        assert(only_copies(m.log(), m.log(), s, d));
    }
}
/// a move: a complete copy first, and only then is the source removed
pub open spec fn moving(x: RzFs, y: RzFs, s: FsPath, d: FsPath, force: bool, keep: bool, ok: bool) -> bool {
    ||| !ok && copying(x, y, s, d, force, false)
    ||| keep && copying(x, y, s, d, force, true) && ok
    ||| !keep && exists|m: RzFs| #[trigger] copying(x, m, s, d, force, true) && y.log() == m.log().push((FsOp::RemoveTree(s), ok))
}
} // verus!
