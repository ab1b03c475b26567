//! M01 packages are copied whole, moved only after a complete copy, and removed exactly
use rez_core::cli::commands::{cp, mv, rm};
use rez_next_package::package_copy::{copy_package, PackageCopyConfig};
use rez_next_package::package_move::{move_package, PackageMoveConfig};
use rez_next_package::package_remove::{remove_package_family, remove_package_version, PackageRemoveConfig};
use rzharness::*;
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::{Path, PathBuf};
use std::time::{Duration, SystemTime};

#[derive(Clone, Debug, PartialEq)]
enum N {
    Dir,
    File(String),
    Link(String),
    /// a file that cannot be read
    Locked,
}
type Tree = BTreeMap<String, N>;
fn snapshot(root: &Path) -> Tree {
    fn go(root: &Path, rel: &str, out: &mut Tree) {
        let Ok(rd) = fs::read_dir(root.join(rel)) else { return };
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            let r = if rel.is_empty() { n } else { format!("{rel}/{n}") };
            let t = e.file_type().unwrap();
            if t.is_symlink() {
                let to = fs::read_link(e.path()).unwrap().to_string_lossy().replace(&format!("{}/", root.to_string_lossy()), "@");
                out.insert(r, N::Link(to));
            } else if t.is_dir() {
                out.insert(r.clone(), N::Dir);
                go(root, &r, out);
            } else {
                out.insert(r, fs::read_to_string(e.path()).map(N::File).unwrap_or(N::Locked));
            }
        }
    }
    let mut t = Tree::new();
    go(root, "", &mut t);
    t
}
fn build(root: &Path, t: &Tree) {
    for (p, c) in t {
        let p = root.join(p);
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        match c {
            N::Dir => fs::create_dir_all(p).unwrap(),
            N::File(c) => fs::write(p, c).unwrap(),
            N::Link(to) => symlink(to.replace('@', &format!("{}/", root.to_string_lossy())), p).unwrap(),
            N::Locked => {
                fs::write(&p, "locked").unwrap();
                fs::set_permissions(p, fs::Permissions::from_mode(0)).unwrap()
            }
        }
    }
}
fn inside(p: &str, d: &str) -> bool {
    p == d || p.starts_with(&format!("{d}/"))
}
fn rm_tree(t: &mut Tree, p: &str) {
    t.retain(|k, _| !inside(k, p));
}
fn mkdirs(t: &mut Tree, p: &str) {
    let mut at = String::new();
    for c in p.split('/') {
        at = if at.is_empty() { c.into() } else { format!("{at}/{c}") };
        t.entry(at.clone()).or_insert(N::Dir);
    }
}
fn is_dir(t: &Tree, p: &str) -> bool {
    t.get(p) == Some(&N::Dir)
}
fn children(t: &Tree, p: &str) -> Vec<String> {
    let pre = format!("{p}/");
    t.keys().filter_map(|k| k.strip_prefix(&pre)).filter(|k| !k.contains('/')).map(|k| k.to_string()).collect()
}
/// the link at the head of a path (`ln`) resolved
fn resolve(t: &Tree, p: &str) -> String {
    let head = p.split('/').next().unwrap();
    match t.get(head) {
        Some(N::Link(to)) => p.replacen(head, to.trim_start_matches('@'), 1),
        _ => p.to_string(),
    }
}
/// (name, version) of every package below base
fn offers(t: &Tree, base: &str, out: &mut Vec<(String, Option<String>)>) {
    for c in children(t, base) {
        let d = format!("{base}/{c}");
        if !is_dir(t, &d) {
            continue;
        }
        match t.get(&format!("{d}/package.py")) {
            Some(N::File(s)) => {
                let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{k} = '"))).map(|l| l.trim_end_matches('\'').to_string());
                out.push((get("name").unwrap(), get("version")))
            }
            _ => offers(t, &d, out),
        }
    }
}
fn split(spec: &str) -> (String, Option<String>) {
    if let Some(i) = spec.rfind('-') {
        if spec[i + 1..].starts_with(|c: char| c.is_ascii_digit()) {
            return (spec[..i].into(), Some(spec[i + 1..].into()));
        }
    }
    (spec.into(), None)
}
/// copies below s as they appear below d (`follow`: a link becomes what it points to); None if an entry cannot be copied
fn copies(t: &Tree, s: &str, d: &str, follow: bool) -> Option<Vec<(String, N)>> {
    let mut out = vec![(d.to_string(), N::Dir)];
    for (k, n) in t.iter().filter(|(k, _)| inside(k, s) && *k != s) {
        let to = format!("{d}{}", &k[s.len()..]);
        let n = match n {
            N::Locked => return None,
            N::Link(l) if follow => match t.get(&format!("{}/{l}", &k[..k.rfind('/').unwrap()])) {
                Some(N::File(c)) => N::File(c.clone()),
                _ => return None,
            },
            n => n.clone(),
        };
        out.push((to, n));
    }
    Some(out)
}
fn overlap(a: &str, b: &str) -> bool {
    inside(a, b) || inside(b, a)
}
/// what is expected: the outcome, the tree, and where the tree may differ (a copy that failed half way)
struct Want {
    ok: Option<bool>,
    tree: Tree,
    partial: Option<String>,
}
fn same(t: &Tree, ok: bool) -> Want {
    Want { ok: Some(ok), tree: t.clone(), partial: None }
}
/// copy the directory at s to d, then (`cut`) remove s
fn transfer(t: &Tree, s: &str, d: &str, force: bool, follow: bool, cut: bool, prune: bool) -> Want {
    let (rs, rd) = (resolve(t, s), resolve(t, d));
    if overlap(&rs, &rd) || t.contains_key(&rd) && !force {
        return same(t, false);
    }
    let mut w = same(t, true);
    let Some(c) = copies(t, &rs, &rd, follow) else {
        rm_tree(&mut w.tree, &rd);
        let parent = &rd[..rd.rfind('/').unwrap()];
        mkdirs(&mut w.tree, parent);
        w.ok = Some(false);
        w.partial = Some(rd);
        return w;
    };
    rm_tree(&mut w.tree, &rd);
    mkdirs(&mut w.tree, &rd);
    w.tree.extend(c);
    if cut {
        rm_tree(&mut w.tree, &rs);
        let f = &rs[..rs.rfind('/').unwrap()];
        if prune && children(&w.tree, f).is_empty() {
            w.tree.remove(f);
        }
    }
    w
}
fn judge(w: &Want, before: &Tree, ok: bool, now: &Tree) -> Option<(String, String)> {
    let clean = |t: &Tree| -> Tree {
        let mut t = t.clone();
        if let Some(p) = &w.partial {
            rm_tree(&mut t, p);
        }
        t
    };
    let (want, now) = (clean(&w.tree), clean(now));
    if w.ok.is_none_or(|x| x == ok) && want == now {
        return None;
    }
    let diff = |a: &Tree, b: &Tree| a.keys().filter(|k| a.get(*k) != b.get(*k)).cloned().collect::<Vec<_>>();
    let say = |ok: Option<bool>, t: &Tree| format!("{}, lost or changed {:?}, added or changed {:?}", match ok { Some(true) => "Ok", Some(false) => "Err", None => "either" }, diff(before, t), diff(t, before));
    Some((say(w.ok, &want), say(Some(ok), &now)))
}
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        wipe(&self.0)
    }
}
fn wipe(p: &Path) {
    fn open(p: &Path) {
        let Ok(m) = fs::symlink_metadata(p) else { return };
        if m.is_dir() {
            let _ = fs::set_permissions(p, fs::Permissions::from_mode(0o755));
            for e in fs::read_dir(p).into_iter().flatten().flatten() {
                open(&e.path())
            }
        }
    }
    open(p);
    let _ = fs::remove_dir_all(p);
}
fn scratch(tag: &str) -> Scratch {
    let p = std::env::temp_dir().join(format!("rz-m01-{}-{tag}", std::process::id()));
    wipe(&p);
    fs::create_dir_all(&p).unwrap();
    Scratch(fs::canonicalize(p).unwrap())
}
const NAMES: [&str; 4] = ["foo", "foo-bar", "b", "Foo"];
const VERS: [&str; 8] = ["1.0", "1.9", "1.10", "2.0", "2.0.beta", "10", "1.0.1", "1.0-beta"];
fn package(t: &mut Tree, r: &mut Rng, at: &str, n: &str, v: &str, base: &str, lock: bool) {
    mkdirs(t, at);
    t.insert(format!("{at}/package.py"), N::File(format!("name = '{n}'\nversion = '{v}'\n")));
    t.insert(format!("{at}/id"), N::File(format!("{base}:{n}:{v}")));
    if r.chance(1, 2) {
        mkdirs(t, &format!("{at}/lib/deep"));
        t.insert(format!("{at}/lib/deep/m.py"), N::File("x".repeat(r.below(4))));
        t.insert(format!("{at}/lib/.hidden"), N::File("h".into()));
    }
    if r.chance(1, 3) {
        mkdirs(t, &format!("{at}/empty"));
    }
    if r.chance(1, 3) {
        t.insert(format!("{at}/alias"), N::Link("id".into()));
    }
    if lock && r.chance(1, 8) {
        t.insert(format!("{at}/{}", r.pick(&["zz", "lib/a", "aa"])), N::Locked);
        mkdirs(t, &format!("{at}/lib"));
    }
}
fn world(r: &mut Rng, lock: bool, odd: bool) -> Tree {
    let mut t = Tree::new();
    for b in ["s0", "s1", "out/keep"] {
        mkdirs(&mut t, b);
    }
    t.insert("out/keep/f".into(), N::File("keep".into()));
    t.insert("ln".into(), N::Link("@s0".into()));
    for b in ["s0", "s1"] {
        for n in NAMES {
            if r.chance(1, 2) {
                continue;
            }
            for v in VERS {
                if r.chance(1, 3) {
                    package(&mut t, r, &format!("{b}/{n}/{v}"), n, v, b, lock);
                } else if r.chance(1, 12) {
                    // a directory that is no package
                    mkdirs(&mut t, &format!("{b}/{n}/{v}/data"));
                } else if odd && r.chance(1, 12) {
                    package(&mut t, r, &format!("{b}/{n}-{v}"), n, v, b, lock);
                } else if odd && r.chance(1, 30) {
                    package(&mut t, r, &format!("{b}/{n}/elsewhere-{v}"), n, v, b, lock);
                }
            }
        }
    }
    t
}
fn bases(r: &mut Rng) -> Vec<&'static str> {
    match r.below(5) {
        0 => vec!["s0"],
        1 => vec!["s1"],
        2 => vec!["s1", "s0"],
        _ => vec!["s0", "s1"],
    }
}
fn all_offers(t: &Tree, bases: &[&str], name: &str) -> Vec<(String, Option<String>)> {
    let mut o = vec![];
    bases.iter().for_each(|b| offers(t, b, &mut o));
    o.retain(|x| x.0 == name);
    o.sort_by(|a, b| vspec::cmp(b.1.as_deref().unwrap_or(""), a.1.as_deref().unwrap_or("")));
    o
}
fn spec(r: &mut Rng) -> String {
    match r.below(8) {
        0..=4 => format!("{}-{}", r.pick(&NAMES), r.pick(&VERS)),
        5 | 6 => r.pick(&NAMES).to_string(),
        _ => r.pick(&["nope", "foo-9.9", "foo-bar-x", "s0", "foo-"]).to_string(),
    }
}
fn dest(r: &mut Rng, t: &mut Tree) -> String {
    let d = match r.below(10) {
        0..=3 => "dest".into(),
        4 => "dest/new/deep".into(),
        5 => "s0".into(),
        6 => "s1".into(),
        7 => "ln".into(),
        _ => format!("{}/{}/{}", r.pick(&["s0", "ln"]), r.pick(&NAMES), r.pick(&VERS)),
    };
    if d == "dest" && r.chance(2, 3) {
        for n in NAMES {
            for v in VERS {
                if r.chance(1, 3) {
                    mkdirs(t, &format!("dest/{n}/{v}/old"));
                    t.insert(format!("dest/{n}/{v}/old/f"), N::File("old".into()));
                }
            }
        }
    }
    d
}
fn cp_mv(a: &Args, rep: &mut Rep) {
    let (seed, n) = (a.seed, 90 * a.scale());
    par(rep, 8, move |k, rep| {
        let mut r = Rng::new(seed * 9100 + k as u64);
        let s = scratch(&format!("c{k}"));
        for case in 0..n {
            let root = s.0.join(format!("c{case}"));
            let mut t = world(&mut r, true, true);
            let (sp, d, bs) = (spec(&mut r), dest(&mut r, &mut t), bases(&mut r));
            let (force, dry, mv, keep, all) = (r.chance(1, 2), r.chance(1, 8), r.chance(2, 3), r.chance(1, 4), r.chance(1, 4));
            let want = (|| {
                let (name, ver) = split(&sp);
                let of = all_offers(&t, &bs, &name);
                let Some(v) = of.iter().find(|o| ver.is_none() || o.1 == ver).and_then(|o| o.1.clone()) else { return same(&t, false) };
                let Some(at) = bs.iter().flat_map(|b| [format!("{b}/{name}/{v}"), format!("{b}/{name}-{v}")]).find(|p| t.contains_key(p)) else { return same(&t, false) };
                let to = format!("{d}/{name}/{v}");
                if t.contains_key(&resolve(&t, &to)) && !force {
                    return same(&t, false);
                }
                if dry {
                    return Want { ok: None, ..same(&t, true) };
                }
                transfer(&t, &at, &to, force, true, mv && !keep, false)
            })();
            rep.check("cp and mv", || format!("{} {sp} to {d}, src-path={bs:?} force={force} dry_run={dry} keep_source={keep} tree={t:?}", if mv { "mv" } else { "cp" }), || {
                build(&root, &t);
                let src: Vec<PathBuf> = bs.iter().map(|b| root.join(b)).collect();
                let ok = if mv {
                    mv::execute(mv::MvArgs { source_package: sp.clone(), destination_path: root.join(&d), source_paths: src, all_variants: all, force, dry_run: dry, verbose: false, no_deps: false, keep_source: keep }).is_ok()
                } else {
                    cp::execute(cp::CpArgs { source_package: sp.clone(), destination_path: root.join(&d), source_paths: src, all_variants: all, force, dry_run: dry, verbose: false, no_deps: false }).is_ok()
                };
                judge(&want, &t, ok, &snapshot(&root))
            });
            wipe(&root);
        }
    });
}
fn rm_(a: &Args, rep: &mut Rep) {
    let (seed, n) = (a.seed, 90 * a.scale());
    par(rep, 8, move |k, rep| {
        let mut r = Rng::new(seed * 9200 + k as u64);
        let s = scratch(&format!("r{k}"));
        for case in 0..n {
            let root = s.0.join(format!("c{case}"));
            let mut t = world(&mut r, false, true);
            let (sp, bs, dry, mode) = (spec(&mut r), bases(&mut r), r.chance(1, 8), r.below(3));
            // markers: their age in days (two kinds of name that mark nothing as well)
            let mut ages: BTreeMap<String, u64> = BTreeMap::new();
            let fams: Vec<String> = t.keys().filter(|k| k.split('/').count() == 2 && is_dir(&t, k) && k.starts_with('s')).cloned().collect();
            for f in fams {
                for v in VERS {
                    if r.chance(1, 3) {
                        let m = format!("{f}/.ignore{v}");
                        t.insert(m.clone(), if r.chance(1, 10) { N::Dir } else { N::File(String::new()) });
                        ages.insert(m, *r.pick(&[0u64, 1, 3, 10, 40]));
                    }
                }
                if r.chance(1, 3) {
                    t.insert(format!("{f}/.ignore"), N::File(String::new()));
                    ages.insert(format!("{f}/.ignore"), 40);
                }
            }
            let days = *r.pick(&[2u64, 7, 21]);
            let first = |t: &Tree, n: &str, v: &str| bs.iter().map(|b| format!("{b}/{n}/{v}")).find(|p| t.contains_key(p));
            let mut want = same(&t, true);
            if !dry {
                if mode < 2 {
                    let (name, ver) = if mode == 1 { (sp.clone(), None) } else { split(&sp) };
                    for (n, v) in all_offers(&t, &bs, &name) {
                        if ver.is_none() || v == ver {
                            if let Some(p) = first(&want.tree, &n, v.as_deref().unwrap()) {
                                rm_tree(&mut want.tree, &p);
                            }
                        }
                    }
                } else {
                    for n in NAMES {
                        let mut o = all_offers(&t, &bs, n);
                        o.dedup();
                        for (n, v) in o {
                            let v = v.unwrap();
                            let Some(p) = first(&t, &n, &v) else { continue };
                            let m = format!("{}/.ignore{v}", &p[..p.rfind('/').unwrap()]);
                            if matches!(t.get(&m), Some(N::File(_))) && ages[&m] > days {
                                rm_tree(&mut want.tree, &p);
                            }
                        }
                    }
                }
            }
            rep.check("rm", || format!("rm {} paths={bs:?} dry_run={dry} marker ages in days={ages:?} tree={t:?}", match mode { 0 => sp.clone(), 1 => format!("--family {sp}"), _ => format!("--ignored-since {days}d") }), || {
                build(&root, &t);
                for (m, d) in &ages {
                    let at = SystemTime::now() - Duration::from_secs(d * 86_400);
                    let _ = fs::File::open(root.join(m)).and_then(|f| f.set_modified(at));
                }
                let ok = rm::execute(rm::RmArgs {
                    package: (mode < 2).then(|| sp.clone()),
                    family: mode == 1,
                    force_family: mode == 1 && r.chance(1, 2),
                    ignored_since: (mode == 2).then(|| format!("{days}d")),
                    paths: bs.iter().map(|b| root.join(b)).collect(),
                    all_variants: false,
                    force: true,
                    dry_run: dry,
                    verbose: false,
                    interactive: false,
                })
                .is_ok();
                judge(&want, &t, ok, &snapshot(&root))
            });
            wipe(&root);
        }
    });
}
fn plain(s: &str) -> bool {
    !s.trim_end_matches('/').is_empty() && s != "." && s != ".." && !s.trim_end_matches('/').contains('/')
}
fn library(a: &Args, rep: &mut Rep) {
    let (seed, n) = (a.seed, 90 * a.scale());
    par(rep, 8, move |k, rep| {
        let mut r = Rng::new(seed * 9300 + k as u64);
        let s = scratch(&format!("l{k}"));
        for case in 0..n {
            let root = s.0.join(format!("c{case}"));
            let removal = r.chance(1, 2);
            let mut t = world(&mut r, !removal, false);
            for b in ["s0", "s1"] {
                if r.chance(1, 2) {
                    let (n, v) = (*r.pick(&NAMES), *r.pick(&VERS));
                    package(&mut t, &mut r, &format!("{b}/{n}/{n}-{v}"), n, v, b, false);
                }
            }
            let (mut d, mut bs) = (dest(&mut r, &mut t), bases(&mut r));
            if r.chance(1, 3) {
                d = "dest".into();
                mkdirs(&mut t, "dest");
                bs.insert(r.below(bs.len() + 1), "dest");
            }
            let odd = ["", "..", ".", "../s1", "../../out", "foo/1.0", "1.0/lib", "/ABS", "foo/../.."];
            let fix = |x: &str| x.replace("/ABS", &root.join("out/keep").to_string_lossy());
            let (mut name, mut ver) = (r.pick(&NAMES).to_string(), r.pick(&VERS).to_string());
            if removal && r.chance(1, 4) {
                name = fix(r.pick(&odd));
            }
            if removal && r.chance(1, 4) {
                ver = fix(r.pick(&odd));
            }
            let (force, keep, prune, family, cut) = (r.chance(1, 2), r.chance(1, 4), r.chance(1, 2), r.chance(1, 3), r.chance(2, 3));
            let paths: Vec<PathBuf> = bs.iter().map(|b| root.join(b)).collect();
            if removal {
                let mut want = same(&t, true);
                if !plain(&name) || !family && !plain(&ver) {
                    want.ok = Some(false);
                } else {
                    let mut any = false;
                    for b in &bs {
                        let p = if family { format!("{b}/{name}") } else { format!("{b}/{name}/{ver}") };
                        if is_dir(&t, &p) {
                            any = true;
                            rm_tree(&mut want.tree, &p);
                        }
                    }
                    for b in &bs {
                        let f = format!("{b}/{name}");
                        if any && !family && prune && is_dir(&want.tree, &f) && children(&want.tree, &f).is_empty() {
                            want.tree.remove(&f);
                        }
                    }
                }
                rep.check("remove_package_version and remove_package_family", || format!("name={name:?} version={ver:?} family={family} prune={prune} paths={bs:?} tree={t:?}"), || {
                    build(&root, &t);
                    let c = PackageRemoveConfig { packages_path: paths.clone(), force: true, prune_empty_families: prune };
                    let ok = if family { remove_package_family(&name, &c).is_ok() } else { remove_package_version(&name, &ver, &c).is_ok() };
                    judge(&want, &t, ok, &snapshot(&root))
                });
            } else {
                let want = match bs.iter().flat_map(|b| [format!("{b}/{name}/{ver}"), format!("{b}/{name}/{name}-{ver}")]).find(|p| is_dir(&t, p)) {
                    None => same(&t, false),
                    Some(at) => transfer(&t, &at, &format!("{d}/{name}/{ver}"), force, false, cut && !keep, true),
                };
                rep.check("copy_package and move_package", || format!("{} {name} {ver} to {d}, packages_path={bs:?} force={force} keep_source={keep} tree={t:?}", if cut { "move" } else { "copy" }), || {
                    build(&root, &t);
                    let ok = if cut {
                        move_package(&name, &ver, &root.join(&d), &PackageMoveConfig { packages_path: paths.clone(), force, keep_source: keep, normalize_paths: true }).is_ok()
                    } else {
                        copy_package(&name, &ver, &root.join(&d), &PackageCopyConfig { packages_path: paths.clone(), force, normalize_paths: true }).is_ok()
                    };
                    judge(&want, &t, ok, &snapshot(&root))
                });
            }
            wipe(&root);
        }
    });
}
/// a source that cannot be removed: the copy is complete all the same, and the error is reported
fn stuck(rep: &mut Rep) {
    for lib in [false, true] {
        let s = scratch(&format!("s{lib}"));
        let mut r = Rng::new(5);
        let mut t = Tree::new();
        package(&mut t, &mut r, "s0/foo/1.0", "foo", "1.0", "s0", false);
        mkdirs(&mut t, "s0/foo/1.0/stuck/in");
        build(&s.0, &t);
        let at = s.0.join("s0/foo/1.0/stuck");
        fs::set_permissions(&at, fs::Permissions::from_mode(0o555)).unwrap();
        rep.check("move with a source that cannot be removed", || format!("{} foo-1.0 with a directory that may not be changed", if lib { "move_package" } else { "mv" }), || {
            let ok = if lib {
                move_package("foo", "1.0", &s.0.join("d"), &PackageMoveConfig { packages_path: vec![s.0.join("s0")], force: false, keep_source: false, normalize_paths: true }).is_ok()
            } else {
                mv::execute(mv::MvArgs { source_package: "foo-1.0".into(), destination_path: s.0.join("d"), source_paths: vec![s.0.join("s0")], all_variants: false, force: false, dry_run: false, verbose: false, no_deps: false, keep_source: false }).is_ok()
            };
            let now = snapshot(&s.0);
            let whole = copies(&t, "s0/foo/1.0", "d/foo/1.0", !lib).unwrap().into_iter().all(|(k, n)| now.get(&k) == Some(&n));
            (ok || !whole).then(|| ("Err and a complete copy".into(), format!("ok={ok}, complete copy={whole}")))
        });
    }
}
fn main() {
    unprivileged();
    let a = Args::get();
    let mut rep = Rep::new();
    if a.prop == "M01" {
        cp_mv(&a, &mut rep);
        rm_(&a, &mut rep);
        library(&a, &mut rep);
        stuck(&mut rep);
    }
    rep.finish()
}
