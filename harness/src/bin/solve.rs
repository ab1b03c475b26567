//! S01 solve soundness, S02 candidate choice
use rez_next_common::RezCoreError;
use rez_next_package::{Package, PackageRequirement, Requirement};
use rez_next_repository::simple_repository::{PackageRepository, RepositoryManager};
use rez_next_solver::{DependencyResolver, DependencySolver, DetailedResolutionResult, SolverConfig, SolverRequest};
use rez_next_version::Version;
use rzharness::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::{mpsc, Arc};
use std::time::Duration;

struct MemRepo(BTreeMap<String, Vec<Arc<Package>>>);
#[async_trait::async_trait]
impl PackageRepository for MemRepo {
    async fn find_packages(&self, name: &str) -> Result<Vec<Arc<Package>>, RezCoreError> {
        Ok(self.0.get(name).cloned().unwrap_or_default())
    }
    async fn get_package(&self, name: &str, version: Option<&str>) -> Result<Option<Arc<Package>>, RezCoreError> {
        Ok(self.0.get(name).and_then(|l| l.iter().find(|p| version.is_none_or(|v| p.version.as_ref().is_some_and(|w| w.as_str() == v))).cloned()))
    }
    async fn list_packages(&self) -> Result<Vec<String>, RezCoreError> {
        Ok(self.0.keys().cloned().collect())
    }
    fn name(&self) -> &str {
        "mem"
    }
    fn root_path(&self) -> &Path {
        Path::new("/nonexistent")
    }
}

/// a package of the generated world: name, version, requires, variants
#[derive(Clone, Debug)]
struct P {
    name: String,
    version: Option<String>,
    requires: Vec<String>,
    variants: Vec<Vec<String>>,
}
#[derive(Clone, Debug)]
struct World {
    pkgs: Vec<P>,
    request: Vec<String>,
    latest: bool,
    pre: bool,
}
impl World {
    fn show(&self) -> String {
        let ps: Vec<String> = self
            .pkgs
            .iter()
            .map(|p| format!("{}-{} requires {:?} variants {:?}", p.name, p.version.as_deref().unwrap_or("(none)"), p.requires, p.variants))
            .collect();
        format!("request {:?} prefer_latest={} allow_prerelease={}; repository: {}", self.request, self.latest, self.pre, ps.join("; "))
    }
    fn manager(&self) -> Arc<RepositoryManager> {
        let mut m: BTreeMap<String, Vec<Arc<Package>>> = BTreeMap::new();
        for p in &self.pkgs {
            let mut q = Package::new(p.name.clone());
            q.version = p.version.as_ref().map(|v| Version::parse(v).unwrap());
            q.requires = p.requires.clone();
            q.variants = p.variants.clone();
            m.entry(p.name.clone()).or_default().push(Arc::new(q));
        }
        let mut r = RepositoryManager::new();
        r.add_repository(Box::new(MemRepo(m)));
        Arc::new(r)
    }
    fn config(&self, strict: bool) -> SolverConfig {
        SolverConfig { strict_mode: strict, prefer_latest: self.latest, allow_prerelease: self.pre, max_attempts: 40, ..SolverConfig::default() }
    }
}
/// run on a thread of its own: None when it does not come back
fn solve(w: &World, strict: bool) -> Option<Result<DetailedResolutionResult, String>> {
    solve_after(w, strict, &[])
}
/// the same, with a resolver that has answered other requests before
fn solve_after(w: &World, strict: bool, before: &[String]) -> Option<Result<DetailedResolutionResult, String>> {
    let (tx, rx) = mpsc::channel();
    let (m, c, r) = (w.manager(), w.config(strict), w.request.clone());
    let before: Vec<Requirement> = before.iter().map(|s| s.parse().unwrap()).collect();
    std::thread::spawn(move || {
        let reqs: Vec<Requirement> = r.iter().map(|s| s.parse().unwrap()).collect();
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let out = rt
            .block_on(async {
                let mut x = DependencyResolver::new(m, c);
                for b in before {
                    let _ = x.resolve(vec![b]).await;
                }
                x.resolve(reqs).await
            })
            .map_err(|e| e.to_string());
        let _ = tx.send(out);
    });
    match rx.recv_timeout(Duration::from_secs(10)) {
        Ok(r) => Some(r),
        Err(mpsc::RecvTimeoutError::Timeout) => None,
        Err(_) => Some(Err("panic".into())),
    }
}

/// the same request through DependencySolver: names and versions of the answer
fn solve_facade(w: &World, constraints: &[String], excludes: &[String]) -> Option<Result<Vec<(String, Option<String>)>, String>> {
    let (tx, rx) = mpsc::channel();
    let (m, c, r, cs, ex) = (w.manager(), w.config(true), w.request.clone(), constraints.to_vec(), excludes.to_vec());
    std::thread::spawn(move || {
        let mut q = SolverRequest::new(r.iter().map(|s| PackageRequirement::parse(s).unwrap()).collect());
        for x in &cs {
            q = q.with_constraint(PackageRequirement::parse(x).unwrap());
        }
        for x in ex {
            q = q.with_exclude(x);
        }
        let out = DependencySolver::with_config(c).with_repository_manager(m).resolve(q);
        let _ = tx.send(out.map(|r| r.packages.iter().map(|p| (p.name.clone(), p.version.as_ref().map(|v| v.as_str().to_string()))).collect()).map_err(|e| e.to_string()));
    });
    match rx.recv_timeout(Duration::from_secs(10)) {
        Ok(r) => Some(r),
        Err(mpsc::RecvTimeoutError::Timeout) => None,
        Err(_) => Some(Err("panic".into())),
    }
}

// ------------------------------------------------------------ the statement, written independently
struct Req {
    name: String,
    weak: bool,
    conflict: bool,
    r: Requirement,
}
fn req(raw: &str) -> Option<Req> {
    let t = raw.trim();
    let (conflict, t) = t.strip_prefix('!').map_or((false, t), |x| (true, x.trim()));
    let (weak, t) = t.strip_prefix('~').map_or((false, t), |x| (true, x.trim()));
    let r: Requirement = t.parse().ok()?;
    Some(Req { name: r.name.clone(), weak, conflict, r })
}
fn matches(r: &Req, v: &Option<Version>) -> bool {
    v.as_ref().is_none_or(|v| r.r.is_satisfied_by(v))
}
fn is_pre(v: &str) -> bool {
    vspec::tokens(v).iter().any(|t| {
        let t = t.to_lowercase();
        ["alpha", "beta", "rc", "dev", "pre", "snapshot"].iter().any(|k| t.contains(k))
    })
}
fn sound(w: &World, strict: bool, res: &DetailedResolutionResult) -> Option<(String, String)> {
    let sel: Vec<(String, Option<Version>, Option<usize>)> =
        res.resolved_packages.iter().map(|i| (i.package.name.clone(), i.package.version.clone(), i.variant_index)).collect();
    let show = format!(
        "{:?} failed {:?}",
        sel.iter().map(|(n, v, i)| format!("{n}-{}[{i:?}]", v.as_ref().map(|v| v.as_str().to_string()).unwrap_or("(none)".into()))).collect::<Vec<_>>(),
        res.failed_requirements.iter().map(|r| r.to_string()).collect::<Vec<_>>()
    );
    let bad = |e: String| Some((e, show.clone()));
    let names: BTreeSet<&String> = sel.iter().map(|x| &x.0).collect();
    if names.len() != sel.len() {
        return bad("one package per name".into());
    }
    let mut needed: Vec<(String, Req)> = vec![];
    for t in &w.request {
        needed.push(("request".into(), req(t)?));
    }
    let mut edges: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for (i, (n, v, vi)) in sel.iter().enumerate() {
        let info = &res.resolved_packages[i];
        let Some(p) = w.pkgs.iter().find(|p| {
            &p.name == n && p.version.as_deref() == v.as_ref().map(|v| v.as_str()) && p.requires == info.package.requires && p.variants == info.package.variants
        }) else {
            return bad(format!("{n}: selected package is one of the repository's"));
        };
        if !w.pre && p.version.as_deref().is_some_and(is_pre) {
            return bad(format!("{n}: no pre-release unless allowed"));
        }
        let mut eff = p.requires.clone();
        match (p.variants.is_empty(), vi) {
            (true, None) => {}
            (false, Some(k)) if *k < p.variants.len() => eff.extend(p.variants[*k].clone()),
            _ => return bad(format!("{n}: a variant is selected exactly when the package has variants")),
        }
        for t in &eff {
            let Some(r) = req(t) else { return bad(format!("{n}: unreadable requirement {t} cannot be met")) };
            if !r.conflict {
                edges.entry(n.clone()).or_default().insert(r.name.clone());
            }
            needed.push((n.clone(), r));
        }
    }
    let mut unsat = BTreeSet::new();
    for (src, r) in &needed {
        let p = sel.iter().find(|x| x.0 == r.name);
        if r.conflict {
            if let Some(p) = p {
                if matches(r, &p.1) {
                    if strict {
                        return bad(format!("!{} of {src} respected", r.r));
                    }
                    if !res.failed_requirements.iter().any(|f| f.name == r.name) {
                        return bad(format!("!{} of {src} respected, or {} listed as failed", r.r, r.name));
                    }
                }
            }
        } else {
            let ok = match p {
                None => r.weak,
                Some(p) => matches(r, &p.1),
            };
            if !ok {
                if strict {
                    return bad(format!("{} of {src} satisfied", r.r));
                }
                unsat.insert(r.r.to_string());
                let hit = res.failed_requirements.iter().any(|f| f.name == r.name && f.version_constraint == r.r.version_constraint);
                if !hit {
                    return bad(format!("{} of {src} satisfied or listed as failed", r.r));
                }
            }
        }
    }
    for f in &res.failed_requirements {
        let conflicted = || needed.iter().any(|(_, r)| r.conflict && r.name == f.name && sel.iter().any(|p| p.0 == r.name && matches(r, &p.1)));
        let really = needed.iter().any(|(_, r)| {
            !r.conflict && r.name == f.name && r.r.version_constraint == f.version_constraint && {
                match sel.iter().find(|x| x.0 == r.name) {
                    None => !r.weak,
                    Some(p) => !matches(r, &p.1),
                }
            }
        });
        if !really && !conflicted() {
            return bad(format!("{f} listed as failed only when it is"));
        }
    }
    // reached by non-weak requirements from the request
    let mut reach: BTreeSet<String> = BTreeSet::new();
    loop {
        let before = reach.len();
        for (src, r) in &needed {
            if !r.weak && !r.conflict && (src == "request" || reach.contains(src)) {
                reach.insert(r.name.clone());
            }
        }
        if reach.len() == before {
            break;
        }
    }
    if let Some(n) = names.iter().find(|n| !reach.contains(**n)) {
        return bad(format!("{n} is selected only if something requires it"));
    }
    // no cycle
    for start in edges.keys() {
        let mut seen = BTreeSet::new();
        let mut todo: Vec<&String> = edges[start].iter().collect();
        while let Some(x) = todo.pop() {
            if x == start {
                return bad(format!("no dependency cycle through {start}"));
            }
            if seen.insert(x.clone()) {
                if let Some(n) = edges.get(x) {
                    todo.extend(n.iter());
                }
            }
        }
    }
    None
}

const NAMES: &[&str] = &["a", "b", "c", "d", "e"];
const VERS: &[&str] = &["1", "1.0", "1.1", "2", "2.0", "2.1", "3", "3.0.rc1", "1.2.alpha", "10"];
fn gen_req(g: &mut Rng, names: &[&str], allow_neg: bool) -> String {
    let n = *g.pick(names);
    let v = *g.pick(&["1", "1.0", "1.1", "2", "2.0", "2.1", "3"][..]);
    let body = match g.below(9) {
        0 | 1 => n.to_string(),
        2 => format!("{n}-{v}"),
        3 => format!("{n}>={v}"),
        4 => format!("{n}<{v}"),
        5 => format!("{n}=={v}"),
        6 => format!("{n}-{v}+"),
        7 => format!("{n}>{v}"),
        _ => format!("{n}<={v}"),
    };
    match g.below(12) {
        0 | 1 if allow_neg => format!("!{body}"),
        2 => format!("~{body}"),
        _ => body,
    }
}
fn gen_world(g: &mut Rng) -> World {
    let k = 2 + g.below(NAMES.len() - 1);
    let names = &NAMES[..k];
    let cyc = g.chance(1, 4);
    let mut pkgs: Vec<P> = vec![];
    for (i, n) in names.iter().enumerate() {
        let nv = 1 + g.below(4);
        let mut used: Vec<String> = vec![];
        for _ in 0..nv {
            let v = g.pick(VERS).to_string();
            if used.iter().any(|u| vspec::cmp(u, &v) == std::cmp::Ordering::Equal) {
                continue;
            }
            used.push(v.clone());
            let pool: Vec<&str> = if cyc { names.to_vec() } else { names[i + 1..].to_vec() };
            let mut requires = vec![];
            let mut variants = vec![];
            if !pool.is_empty() {
                for _ in 0..g.below(3) {
                    requires.push(gen_req(g, &pool, true));
                }
                if g.chance(1, 5) {
                    for _ in 0..1 + g.below(2) {
                        variants.push((0..1 + g.below(2)).map(|_| gen_req(g, &pool, true)).collect());
                    }
                }
            } else if g.chance(1, 10) {
                // a later family may refuse an earlier one
                requires.push(format!("!{}", gen_req(g, names, false).trim_start_matches('~')));
            }
            if g.chance(1, 6) {
                requires.push(format!("!{}", gen_req(g, names, false).trim_start_matches('~')));
            }
            pkgs.push(P { name: n.to_string(), version: if g.chance(1, 40) { None } else { Some(v) }, requires, variants });
        }
    }
    // the order of discovery is not the version order
    for i in (1..pkgs.len()).rev() {
        pkgs.swap(i, g.below(i + 1));
    }
    let mut request: Vec<String> = (0..1 + g.below(3)).map(|_| gen_req(g, names, false)).collect();
    if g.chance(1, 4) {
        request.push(format!("!{}", gen_req(g, names, false).trim_start_matches('~')));
    }
    World { pkgs, request, latest: g.chance(2, 3), pre: g.chance(1, 3) }
}
/// families whose versions mention the same few others, each in its own way: replacing one changes what the rest asks for
fn gen_shift(g: &mut Rng) -> World {
    let k = 3 + g.below(3);
    let names = &NAMES[..k];
    let mut pkgs: Vec<P> = vec![];
    for (i, n) in names.iter().enumerate() {
        let nv = 1 + g.below(3);
        let deps: Vec<&str> = names.iter().enumerate().filter(|(j, _)| *j != i && g.chance(1, if *j > i { 2 } else { 6 })).map(|x| *x.1).collect();
        for v in 1..=nv {
            let mut requires = vec![];
            for d in &deps {
                let body = match g.below(6) {
                    0 => format!("{d}<{}", 1 + g.below(3)),
                    1 => format!("{d}>={}", 1 + g.below(3)),
                    2 => format!("{d}-{}", 1 + g.below(3)),
                    _ => d.to_string(),
                };
                match g.below(8) {
                    0 | 1 => requires.push(format!("~{body}")),
                    2 => requires.push(format!("!{body}")),
                    3 | 4 => {}
                    _ => requires.push(body),
                }
            }
            let variants = if g.chance(1, 8) && !requires.is_empty() { vec![requires.split_off(g.below(requires.len())), vec![]] } else { vec![] };
            pkgs.push(P { name: n.to_string(), version: Some(v.to_string()), requires, variants });
        }
    }
    for i in (1..pkgs.len()).rev() {
        pkgs.swap(i, g.below(i + 1));
    }
    let mut request: Vec<String> = vec![];
    for _ in 0..1 + g.below(3) {
        let n = *g.pick(names);
        if !request.iter().any(|r| r.starts_with(n)) {
            request.push(if g.chance(1, 5) { format!("{n}<{}", 2 + g.below(2)) } else { n.to_string() });
        }
    }
    World { pkgs, request, latest: g.chance(3, 4), pre: false }
}
fn pk(name: &str, v: &str, req: &[&str]) -> P {
    P { name: name.into(), version: Some(v.into()), requires: req.iter().map(|s| s.to_string()).collect(), variants: vec![] }
}
fn directed() -> Vec<World> {
    let w = |pkgs: Vec<P>, req: &[&str]| World { pkgs, request: req.iter().map(|s| s.to_string()).collect(), latest: true, pre: false };
    vec![
        // a conflict learnt after the package it refuses was selected
        w(vec![pk("a", "1", &[]), pk("b", "1", &["!a-1"])], &["a", "b"]),
        w(vec![pk("a", "1", &[]), pk("a", "2", &[]), pk("b", "1", &["!a-2"])], &["a", "b"]),
        w(vec![pk("a", "1", &[]), pk("b", "1", &["!a"])], &["a", "b"]),
        // two conflicts whose bounds compare equal
        w(vec![pk("a", "1.1", &[]), pk("b", "1", &["!a-1.0"]), pk("c", "1", &["!a-1"])], &["b", "c", "a"]),
        w(vec![pk("a", "1.1", &[]), pk("b", "1", &["!a-1.0", "!a-1"])], &["b", "a"]),
        // packages that keep replacing each other
        w(vec![pk("x", "2", &["y<2"]), pk("x", "1", &["y>=2"]), pk("y", "2", &["x>=2"]), pk("y", "1", &["x<2"])], &["x", "y"]),
        w(vec![pk("x", "2", &["y<2"]), pk("x", "1", &["y>=2"]), pk("y", "2", &[]), pk("y", "1", &["x<2"])], &["x", "y"]),
        // conflict written with blanks
        w(vec![pk("a", "1", &[]), pk("a", "2", &[]), pk("b", "1", &[" !a-2"])], &["b", "a"]),
    ]
}
fn facade(w: &World, constraints: &[String], excludes: &[String]) -> Option<(String, String)> {
    let sel = match solve_facade(w, constraints, excludes) {
        None => return Some(("an answer within 10 s".into(), "none".into())),
        Some(Err(e)) if e == "panic" => return Some(("no panic".into(), e)),
        Some(Err(_)) => return None,
        Some(Ok(s)) => s,
    };
    let show = format!("{sel:?}");
    let ver = |n: &str| sel.iter().find(|x| x.0 == n).map(|x| x.1.as_ref().map(|v| Version::parse(v).unwrap()));
    for (i, t) in w.request.iter().chain(constraints).enumerate() {
        let r = req(t)?;
        let bad = match ver(&r.name) {
            None => i < w.request.len() && !r.weak && !r.conflict,
            Some(v) => matches(&r, &v) == r.conflict,
        };
        if bad {
            return Some((format!("{t} met"), show));
        }
    }
    if let Some(x) = excludes.iter().find(|x| ver(x).is_some()) {
        return Some((format!("{x} excluded"), show));
    }
    None
}
fn s01_one(w: &World, rep: &mut Rep, g: &mut Rng) -> bool {
    let mut hung = false;
    for strict in [true, false] {
        let part = if strict { "strict solve" } else { "lenient solve" };
        rep.check(part, || w.show(), || match solve(w, strict) {
            None => {
                hung = true;
                Some(("an answer within 10 s".into(), "none".into()))
            }
            Some(Err(e)) if e == "panic" => Some(("no panic".into(), e)),
            Some(Err(_)) => None,
            Some(Ok(r)) => sound(w, strict, &r),
        });
        if hung {
            return true;
        }
    }
    if g.chance(1, 8) {
        let names: Vec<&str> = NAMES.to_vec();
        let cs: Vec<String> = (0..g.below(3)).map(|_| gen_req(g, &names, true)).collect();
        let ex: Vec<String> = (0..g.below(2)).map(|_| g.pick(&names).to_string()).collect();
        rep.check("request with constraints and exclusions", || format!("{} constraints {cs:?} excludes {ex:?}", w.show()), || facade(w, &cs, &ex));
    }
    false
}
fn s01(a: &Args, rep: &mut Rep) {
    let mut g = Rng::new(a.seed);
    for w in directed() {
        s01_one(&w, rep, &mut g);
    }
    let (seed, n) = (a.seed, 2000 * a.scale());
    par(rep, 8, move |k, rep| {
        let mut g = Rng::new(seed * 1000 + k as u64);
        let mut hangs = 0;
        for _ in 0..n {
            if hangs > 2 {
                break;
            }
            let w = if g.chance(1, 2) { gen_shift(&mut g) } else { gen_world(&mut g) };
            hangs += s01_one(&w, rep, &mut g) as usize;
        }
    });
}

// ------------------------------------------------------------ S02: which admissible package is chosen
fn s02_expect(w: &World, raw: &str) -> Vec<Option<String>> {
    let r = req(raw).unwrap();
    let ok: Vec<&P> = w
        .pkgs
        .iter()
        .filter(|p| p.name == r.name)
        .filter(|p| match &p.version {
            None => true,
            Some(v) => (w.pre || !is_pre(v)) && r.r.is_satisfied_by(&Version::parse(v).unwrap()),
        })
        .collect();
    let better = |a: &P, b: &P| match (&a.version, &b.version) {
        (Some(x), Some(y)) => vspec::cmp(x, y) == if w.latest { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less },
        (Some(_), None) => true,
        _ => false,
    };
    ok.iter().filter(|p| !ok.iter().any(|q| better(q, p))).map(|p| p.version.clone()).collect()
}
fn s02_one(w: &World, before: &[String], rep: &mut Rep) {
    for strict in [true, false] {
        rep.check("choice among the admissible packages", || format!("strict={strict} after {before:?}: {}", w.show()), || {
            let want: Vec<(String, Vec<Option<String>>)> = w.request.iter().map(|r| (req(r).unwrap().name, s02_expect(w, r))).collect();
            let satisfiable = want.iter().all(|x| !x.1.is_empty());
            match solve_after(w, strict, before) {
                None => Some(("an answer within 10 s".into(), "none".into())),
                Some(Err(e)) => (e == "panic" || (satisfiable && strict)).then(|| ("a solution".to_string(), format!("error: {e}"))),
                Some(Ok(r)) => {
                    for (n, vs) in &want {
                        let got: Vec<Option<String>> = r.resolved_packages.iter().filter(|p| p.package.name == *n).map(|p| p.package.version.as_ref().map(|v| v.as_str().to_string())).collect();
                        let fine = if vs.is_empty() { got.is_empty() } else { got.len() == 1 && vs.contains(&got[0]) };
                        if !fine {
                            return Some((format!("{n}: one of {vs:?}"), format!("{got:?}")));
                        }
                    }
                    None
                }
            }
        });
    }
}
fn s02(a: &Args, rep: &mut Rep) {
    let (seed, n) = (a.seed, 1500 * a.scale());
    par(rep, 8, move |k, rep| {
        let mut g = Rng::new(seed * 2000 + k as u64);
        let vers: Vec<&str> = VERS.iter().copied().chain(["0", "9", "1.10", "1.9", "1.0.1", "2.0.beta", "2.dev1", "11", "1.a", "1.A", "1_2", "2.00", "20240101", "18446744073709551616"]).collect();
        for _ in 0..n {
            let mut pkgs = vec![];
            let names = &NAMES[..1 + g.below(3)];
            for nm in names {
                for _ in 0..g.below(7) {
                    pkgs.push(P { name: nm.to_string(), version: if g.chance(1, 15) { None } else { Some(g.pick(&vers).to_string()) }, requires: vec![], variants: vec![] });
                }
            }
            if g.chance(1, 100) {
                // a large family
                for i in 0..g.below(400) {
                    pkgs.push(P { name: names[0].to_string(), version: Some(format!("{}.{}", 1 + i % 3, i)), requires: vec![], variants: vec![] });
                }
            }
            for i in (1..pkgs.len()).rev() {
                pkgs.swap(i, g.below(i + 1));
            }
            let before: Vec<String> = if g.chance(1, 3) { (0..1 + g.below(3)).map(|_| gen_req(&mut g, names, false)).collect() } else { vec![] };
            let request: Vec<String> = names.iter().map(|nm| gen_req(&mut g, &[nm], false).trim_start_matches('~').to_string()).collect();
            s02_one(&World { pkgs, request, latest: g.chance(1, 2), pre: g.chance(1, 2) }, &before, rep);
        }
    });
}
fn main() {
    let a = Args::get();
    let mut rep = Rep::new();
    match a.prop.as_str() {
        "S01" => s01(&a, &mut rep),
        "S02" => s02(&a, &mut rep),
        _ => {}
    }
    rep.finish()
}
