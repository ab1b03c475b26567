//! D01 package repositories on disk: what ignore, unignore and remove touch, and what is listed
use rez_next_repository::{FilesystemPackageRepository, PackageFamilyResource, PackageRepository};
use rzharness::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};

/// every path below the scratch directory: None for a directory, the content of a file
type Tree = BTreeMap<String, Option<String>>;
fn snapshot(root: &Path) -> Tree {
    fn go(root: &Path, rel: &str, out: &mut Tree) {
        let Ok(rd) = fs::read_dir(root.join(rel)) else { return };
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            let r = if rel.is_empty() { n } else { format!("{rel}/{n}") };
            if e.path().is_dir() {
                out.insert(r.clone(), None);
                go(root, &r, out);
            } else {
                out.insert(r.clone(), Some(fs::read_to_string(e.path()).unwrap_or_default()));
            }
        }
    }
    let mut t = Tree::new();
    go(root, "", &mut t);
    t
}
fn build(root: &Path, t: &Tree) {
    for (p, c) in t {
        match c {
            None => fs::create_dir_all(root.join(p)).unwrap(),
            Some(c) => {
                fs::create_dir_all(root.join(p).parent().unwrap()).unwrap();
                fs::write(root.join(p), c).unwrap()
            }
        }
    }
}
const LOC: &str = "x/y/repo";
fn is_dir(t: &Tree, p: &str) -> bool {
    t.get(p) == Some(&None)
}
fn is_file(t: &Tree, p: &str) -> bool {
    matches!(t.get(p), Some(Some(_)))
}
fn rm_tree(t: &mut Tree, p: &str) {
    let pre = format!("{p}/");
    t.retain(|k, _| k != p && !k.starts_with(&pre));
}
/// one entry of a directory
fn plain(s: &str) -> bool {
    !s.is_empty() && s != "." && s != ".." && !s.contains('/')
}
fn children(t: &Tree, p: &str) -> Vec<String> {
    let pre = format!("{p}/");
    t.keys().filter_map(|k| k.strip_prefix(&pre)).filter(|k| !k.contains('/')).map(|k| k.to_string()).collect()
}
#[derive(Clone, Debug)]
enum Op {
    Ignore(String, Option<String>, bool),
    Unignore(String, Option<String>),
    Remove(String, Option<String>),
    Family(String, bool),
    Since(i32, bool),
}
/// the outcome the contract asks for; the tree is changed accordingly
fn model(t: &mut Tree, ro: bool, op: &Op) -> String {
    let target = |n: &str, v: &Option<String>| -> Option<(String, String, String)> {
        let v = v.as_ref()?;
        (!ro && plain(n) && plain(v)).then(|| (format!("{LOC}/{n}"), format!("{LOC}/{n}/{v}"), format!("{LOC}/{n}/.ignore{v}")))
    };
    fn ignore(t: &mut Tree, f: &str, p: &str, m: &str, allow: bool) -> String {
        if !allow && !is_dir(t, p) {
            return "Ok(-1)".into();
        }
        if is_file(t, f) {
            return "Err".into();
        }
        t.insert(f.to_string(), None);
        if t.contains_key(m) {
            return "Ok(0)".into();
        }
        t.insert(m.to_string(), Some(String::new()));
        "Ok(1)".into()
    }
    fn remove(t: &mut Tree, f: &str, p: &str, m: &str) -> String {
        if ignore(t, f, p, m, false) == "Ok(-1)" {
            return "Ok(false)".into();
        }
        rm_tree(t, p);
        if is_dir(t, m) {
            return "Err".into();
        }
        t.remove(m);
        "Ok(true)".into()
    }
    match op {
        Op::Ignore(n, v, allow) => match target(n, v) {
            None => "Err".into(),
            Some((f, p, m)) => ignore(t, &f, &p, &m, *allow),
        },
        Op::Unignore(n, v) => match target(n, v) {
            None => "Err".into(),
            Some((_, p, m)) => {
                if is_dir(t, &m) || t.keys().any(|k| is_file(t, k) && m.starts_with(&format!("{k}/"))) {
                    return "Err".into();
                }
                let had = t.remove(&m).is_some();
                if !is_dir(t, &p) {
                    "Ok(-1)".into()
                } else {
                    format!("Ok({})", had as i32)
                }
            }
        },
        Op::Remove(n, v) => match target(n, v) {
            None => "Err".into(),
            Some((f, p, m)) => remove(t, &f, &p, &m),
        },
        Op::Family(n, force) => {
            if ro || !plain(n) {
                return "Err".into();
            }
            let f = format!("{LOC}/{n}");
            if !is_dir(t, &f) {
                return "Ok(false)".into();
            }
            if !force && children(t, &f).iter().any(|c| !c.starts_with('.') && is_dir(t, &format!("{f}/{c}"))) {
                return "Err".into();
            }
            rm_tree(t, &f);
            "Ok(true)".into()
        }
        Op::Since(days, dry) => {
            if ro || *days < 0 {
                return "Err".into();
            }
            let mut k = 0;
            if *days == 0 {
                for n in children(t, LOC) {
                    let f = format!("{LOC}/{n}");
                    if !is_dir(t, &f) {
                        continue;
                    }
                    for e in children(t, &f) {
                        let Some(v) = e.strip_prefix(".ignore") else { continue };
                        if v.is_empty() || !is_file(t, &format!("{f}/{e}")) {
                            continue;
                        }
                        if *dry || remove(t, &f, &format!("{f}/{v}"), &format!("{f}/{e}")) == "Ok(true)" {
                            k += 1;
                        }
                    }
                }
            }
            format!("Ok({k})")
        }
    }
}
fn real(r: &mut FilesystemPackageRepository, op: &Op) -> String {
    fn s<T: std::fmt::Debug, E>(x: Result<T, E>) -> String {
        match x {
            Ok(v) => format!("Ok({v:?})"),
            Err(_) => "Err".into(),
        }
    }
    match op {
        Op::Ignore(n, v, a) => s(r.ignore_package(n, v.as_deref(), *a)),
        Op::Unignore(n, v) => s(r.unignore_package(n, v.as_deref())),
        Op::Remove(n, v) => s(r.remove_package(n, v.as_deref())),
        Op::Family(n, f) => s(r.remove_package_family(n, *f)),
        Op::Since(d, dry) => s(r.remove_ignored_since(*d, *dry, false)),
    }
}
fn listed(r: &FilesystemPackageRepository) -> Result<BTreeMap<String, BTreeSet<String>>, String> {
    let mut out = BTreeMap::new();
    for f in r.iter_package_families().map_err(|e| e.to_string())? {
        let mut vs = BTreeSet::new();
        for p in r.iter_packages(&f).map_err(|e| e.to_string())? {
            if p.package.name != f.name {
                return Err(format!("a package {} in family {}", p.package.name, f.name));
            }
            vs.insert(p.package.version.as_ref().map(|v| v.as_str().to_string()).unwrap_or_default());
        }
        out.insert(f.name.clone(), vs);
    }
    Ok(out)
}
fn visible(t: &Tree) -> BTreeMap<String, BTreeSet<String>> {
    let ordinary = |n: &String| !n.starts_with('.') && !n.starts_with('_');
    children(t, LOC)
        .into_iter()
        .filter(|n| ordinary(n) && is_dir(t, &format!("{LOC}/{n}")))
        .map(|n| {
            let f = format!("{LOC}/{n}");
            let vs = children(t, &f).into_iter().filter(|v| ordinary(v) && is_dir(t, &format!("{f}/{v}")) && !is_file(t, &format!("{f}/.ignore{v}"))).collect();
            (n, vs)
        })
        .collect()
}
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
fn scratch(tag: &str) -> Scratch {
    let p = std::env::temp_dir().join(format!("rz-d01-{}-{tag}", std::process::id()));
    let _ = fs::remove_dir_all(&p);
    fs::create_dir_all(&p).unwrap();
    Scratch(p)
}
fn d01(a: &Args, rep: &mut Rep) {
    let (seed, n) = (a.seed, 150 * a.scale());
    par(rep, 8, move |t, rep| {
        let mut r = Rng::new(seed * 7000 + t as u64);
        let fams = ["maya", "a-b", "_h", ".git", "fé", "file", "..", "../other", "", ".", "a/b", "maya/1.0", "/ABS"];
        let vers = ["1.0", "1.0.1", "2", "10", "beta", ".x", "_t", "..", "../../other", "", "2/bin", ".", "/ABS"];
        let s = scratch(&format!("{t}"));
        for case in 0..n {
            let root = s.0.join(format!("c{case}"));
            let mut m = Tree::new();
            for d in ["x", "x/y", LOC, "x/y/other", "x/other", "other", "x/y/other/1.0"] {
                m.insert(d.into(), None);
            }
            for f in ["x/y/other/1.0/keep", "x/keep", "other/keep", "x/y/keep"] {
                m.insert(f.into(), Some("keep".into()));
            }
            if r.chance(1, 2) {
                m.insert(format!("{LOC}/file"), Some("not a family".into()));
            }
            for f in &fams[..5] {
                if r.chance(1, 4) {
                    continue;
                }
                m.insert(format!("{LOC}/{f}"), None);
                for v in &vers[..7] {
                    if r.chance(1, 2) {
                        m.insert(format!("{LOC}/{f}/{v}"), None);
                        m.insert(format!("{LOC}/{f}/{v}/package.py"), Some(format!("name = '{f}'")));
                        if r.chance(1, 2) {
                            m.insert(format!("{LOC}/{f}/{v}/bin"), None);
                            m.insert(format!("{LOC}/{f}/{v}/bin/tool"), Some("x".into()));
                        }
                    } else if r.chance(1, 5) {
                        m.insert(format!("{LOC}/{f}/{v}"), Some("a file".into()));
                    }
                    if r.chance(1, 4) {
                        m.insert(format!("{LOC}/{f}/.ignore{v}"), if r.chance(1, 8) { None } else { Some("old".into()) });
                    }
                }
            }
            let ro = r.chance(1, 5);
            let fix = |x: &str| x.replace("/ABS", &root.join("x/y/other").to_string_lossy());
            let ops: Vec<Op> = (0..1 + r.below(8))
                .map(|_| {
                    let odd = r.chance(1, 3);
                    let f = fix(r.pick(&fams[..if odd { 13 } else { 3 }]));
                    let vn = if r.chance(1, 3) { 13 } else { 5 };
                    let v = if r.chance(1, 12) { None } else { Some(fix(r.pick(&vers[..vn]))) };
                    match r.below(9) {
                        0 | 1 => Op::Ignore(f, v, r.chance(1, 3)),
                        2 => Op::Unignore(f, v),
                        3..=5 => Op::Remove(f, v),
                        6 => Op::Family(f, r.chance(1, 3)),
                        _ => Op::Since(*r.pick(&[0, 0, 1, 30, -1]), r.chance(1, 3)),
                    }
                })
                .collect();
            let m0 = m.clone();
            rep.check("repository operations", || format!("read_only={ro} tree={m0:?} ops={ops:?}"), || {
                build(&root, &m);
                let mut repo = FilesystemPackageRepository::new(root.join(LOC)).with_read_only(ro);
                for (i, op) in ops.iter().enumerate() {
                    let before = m.clone();
                    let want = model(&mut m, ro, op);
                    let got = real(&mut repo, op);
                    let now = snapshot(&root);
                    if want != got || now != m {
                        let diff = |a: &Tree, b: &Tree| a.keys().filter(|k| !b.contains_key(*k)).cloned().collect::<Vec<_>>();
                        return Some((
                            format!("operation {i} gives {want}, removes {:?}, adds {:?}", diff(&before, &m), diff(&m, &before)),
                            format!("{got}, removes {:?}, adds {:?}{}", diff(&before, &now), diff(&now, &before), if now.len() == m.len() && diff(&m, &now).is_empty() && now != m { " and changes a file" } else { "" }),
                        ));
                    }
                    match listed(&repo) {
                        Ok(l) if l == visible(&m) => {}
                        l => return Some((format!("after operation {i} listed: {:?}", visible(&m)), format!("{l:?}"))),
                    }
                }
                None
            });
            let _ = fs::remove_dir_all(&root);
        }
    });
    interrupted(rep);
}
/// a removal that fails half way (a payload directory that may not be changed) leaves the version hidden
fn interrupted(rep: &mut Rep) {
    use std::os::unix::fs::PermissionsExt;
    let s = scratch("i");
    let root = s.0.join("r");
    let pkg = root.join("maya/1.0");
    fs::create_dir_all(pkg.join("locked")).unwrap();
    fs::write(pkg.join("locked/f"), "x").unwrap();
    fs::write(pkg.join("package.py"), "name = 'maya'").unwrap();
    fs::set_permissions(pkg.join("locked"), fs::Permissions::from_mode(0o555)).unwrap();
    rep.check("interrupted removal", || "payload with a directory that cannot be changed; remove_package(maya, 1.0) fails".into(), || {
        let mut r = FilesystemPackageRepository::new(&root);
        let got = real(&mut r, &Op::Remove("maya".into(), Some("1.0".into())));
        if !pkg.join("locked/f").exists() {
            return None; // it could be removed after all
        }
        let f = PackageFamilyResource::new("maya".into(), "filesystem".into(), root.to_string_lossy().to_string());
        let l: Vec<String> = r.iter_packages(&f).map(|l| l.iter().map(|p| format!("{:?}", p.package.version)).collect()).unwrap_or_default();
        let marker = root.join("maya/.ignore1.0").is_file();
        if got != "Err" || !l.is_empty() || !marker {
            return Some(("Err, the marker kept, version 1.0 not listed".into(), format!("{got}, listed {l:?}, marker {marker}")));
        }
        None
    });
    let _ = fs::set_permissions(pkg.join("locked"), fs::Permissions::from_mode(0o755));
}
fn main() {
    unprivileged();
    let a = Args::get();
    let mut rep = Rep::new();
    if a.prop == "D01" {
        d01(&a, &mut rep)
    }
    rep.finish()
}
