//! G01 dependency graph, G02 conflicts between requirements
use rez_next_package::{Package, PackageRequirement};
use rez_next_solver::{ConflictResolution, DependencyGraph};
use rez_next_version::{Version, VersionRange};
use rzharness::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
enum Op {
    Add(String, Option<String>),
    Exclude(String),
    Edge(String, String),
    Remove(String),
    Resolve(String, Option<String>, Vec<String>),
    Require(String, String),
    Clear,
}
#[derive(Clone, Default, Debug, PartialEq)]
struct Model {
    nodes: BTreeMap<String, String>,
    edges: BTreeSet<(String, String)>,
    excl: BTreeSet<String>,
    reqs: BTreeMap<String, Vec<String>>,
}
fn key(n: &str, v: &Option<String>) -> String {
    match v {
        Some(v) => format!("{n}-{v}"),
        None => n.to_string(),
    }
}
impl Model {
    fn remove(&mut self, k: &str) {
        self.nodes.remove(k);
        self.edges.retain(|(a, b)| a != k && b != k);
    }
    fn step(&mut self, op: &Op) -> bool {
        match op {
            Op::Add(n, v) => {
                if self.excl.contains(n) {
                    return false;
                }
                self.nodes.insert(key(n, v), n.clone());
            }
            Op::Exclude(n) => {
                self.excl.insert(n.clone());
            }
            Op::Edge(a, b) => {
                if !self.nodes.contains_key(a) || !self.nodes.contains_key(b) {
                    return false;
                }
                self.edges.insert((a.clone(), b.clone()));
            }
            Op::Remove(k) => self.remove(k),
            Op::Resolve(n, v, l) => {
                l.iter().for_each(|k| self.remove(k));
                if let (Some(q), Some(v)) = (self.reqs.get_mut(n), v) {
                    *q = vec![v.clone()];
                }
            }
            Op::Require(n, s) => self.reqs.entry(n.clone()).or_default().push(s.clone()),
            Op::Clear => *self = Model::default(),
        }
        true
    }
    fn reach(&self, a: &str) -> BTreeSet<String> {
        let mut out = BTreeSet::from([a.to_string()]);
        loop {
            let more: Vec<String> = self.edges.iter().filter(|(x, y)| out.contains(x) && !out.contains(y)).map(|e| e.1.clone()).collect();
            if more.is_empty() {
                return out;
            }
            out.extend(more);
        }
    }
    fn cyclic(&self) -> bool {
        self.edges.iter().any(|(a, b)| self.reach(b).contains(a))
    }
}
fn pkg(n: &str, v: &Option<String>) -> Package {
    let mut p = Package::new(n.to_string());
    p.version = v.as_ref().map(|v| Version::parse(v).unwrap());
    p
}
fn real_step(g: &mut DependencyGraph, op: &Op) -> bool {
    match op {
        Op::Add(n, v) => g.add_package(pkg(n, v)).is_ok(),
        Op::Exclude(n) => g.add_exclusion(n.clone()).is_ok(),
        Op::Edge(a, b) => g.add_dependency_edge(a, b).is_ok(),
        Op::Remove(k) => g.remove_package(k).is_ok(),
        Op::Resolve(n, v, l) => g
            .apply_conflict_resolution(ConflictResolution {
                package_name: n.clone(),
                selected_version: v.as_ref().map(|v| Version::parse(v).unwrap()),
                strategy: "test".into(),
                modified_packages: l.clone(),
            })
            .is_ok(),
        Op::Require(n, s) => g.add_requirement(PackageRequirement::with_version(n.clone(), s.clone())).is_ok(),
        Op::Clear => {
            g.clear();
            true
        }
    }
}
fn pkey(p: &Package) -> String {
    key(&p.name, &p.version.as_ref().map(|v| v.as_str().to_string()))
}
fn differs(m: &Model, g: &DependencyGraph) -> Option<(String, String)> {
    if g.len() != m.nodes.len() || g.is_empty() != m.nodes.is_empty() {
        return Some((format!("{} packages", m.nodes.len()), format!("{} packages", g.len())));
    }
    let s = g.get_stats();
    if s.node_count != m.nodes.len() || s.edge_count != m.edges.len() || s.exclusion_count != m.excl.len() {
        return Some((format!("nodes {} edges {} exclusions {}", m.nodes.len(), m.edges.len(), m.excl.len()), format!("{s:?}")));
    }
    let want: BTreeMap<String, Vec<String>> = m.nodes.keys().map(|k| (k.clone(), m.reach(k).into_iter().collect())).collect();
    let have: BTreeMap<String, Vec<String>> = g.accessibility().into_iter().collect();
    if want != have {
        return Some((format!("accessibility {want:?}"), format!("{have:?}")));
    }
    let odds = |x: &String, y: &String| matches!((VersionRange::parse(x), VersionRange::parse(y)), (Ok(a), Ok(b)) if a.intersect(&b).is_none());
    let want: BTreeMap<String, Vec<String>> = m.reqs.iter().filter(|(_, l)| l.iter().any(|x| l.iter().any(|y| odds(x, y)))).map(|(n, l)| (n.clone(), l.clone())).collect();
    let have: BTreeMap<String, Vec<String>> = g.detect_conflicts().iter().map(|c| (c.package_name.clone(), c.conflicting_requirements.iter().map(|r| r.version_spec.clone().unwrap_or_default()).collect())).collect();
    if want != have {
        return Some((format!("conflicting requirements {want:?}"), format!("{have:?}")));
    }
    let cyc = m.cyclic();
    match (g.find_cycle(), cyc) {
        (None, true) => return Some(("a cycle".into(), "find_cycle: none".into())),
        (Some(c), _) if c.is_empty() || !(0..c.len()).all(|i| m.edges.contains(&(c[i].clone(), c[(i + 1) % c.len()].clone()))) => {
            return Some((format!("find_cycle: a cycle of {:?}", m.edges), format!("{c:?}")))
        }
        _ => {}
    }
    match g.get_resolved_packages() {
        Err(e) if !cyc => return Some(("an order (there is no cycle)".into(), format!("{e}"))),
        Ok(l) => {
            let l: Vec<String> = l.iter().map(pkey).collect();
            let ok = !cyc && l.len() == m.nodes.len() && l.iter().collect::<BTreeSet<_>>() == m.nodes.keys().collect() && m.edges.iter().all(|(a, b)| l.iter().position(|x| x == a) < l.iter().position(|x| x == b));
            if !ok {
                return Some((format!("every package once, before what it depends on{}; edges {:?}", if cyc { " (cyclic: an error)" } else { "" }, m.edges), format!("{l:?}")));
            }
        }
        _ => {}
    }
    None
}
fn g01(a: &Args, rep: &mut Rep) {
    let (seed, n) = (a.seed, 3000 * a.scale());
    par(rep, 8, move |t, rep| {
        let mut r = Rng::new(seed * 3000 + t as u64);
        for _ in 0..n {
            let names: Vec<&str> = ["a", "b", "c", "d", "e", "a-1"][..2 + r.below(5)].to_vec();
            let vers = [None, Some("1".to_string()), Some("2.0".to_string())];
            let mut keys: Vec<String> = vec!["zz".into()];
            let mut ops: Vec<Op> = vec![];
            let style = r.below(3);
            for _ in 0..3 + r.below(28) {
                let k1 = r.pick(&keys).clone();
                let k2 = r.pick(&keys).clone();
                let op = match r.below(if style == 0 { 23 } else { 14 }) {
                    0..=4 => {
                        let (nm, v) = (r.pick(&names).to_string(), r.pick(&vers).clone());
                        if !keys.contains(&key(&nm, &v)) {
                            keys.push(key(&nm, &v));
                        }
                        Op::Add(nm, v)
                    }
                    5..=12 => {
                        if style == 1 && k1 > k2 {
                            Op::Edge(k2, k1)
                        } else {
                            Op::Edge(k1, k2)
                        }
                    }
                    13 => Op::Remove(k1),
                    14 | 15 => Op::Exclude(r.pick(&names).to_string()),
                    16 | 17 => Op::Remove(k1),
                    18 => Op::Resolve(r.pick(&names).to_string(), r.pick(&vers).clone(), (0..r.below(3)).map(|_| r.pick(&keys).clone()).collect()),
                    19..=21 => Op::Require(r.pick(&names).to_string(), r.pick(&["==1", "<2", ">=2.0", ">=1"]).to_string()),
                    _ => Op::Clear,
                };
                ops.push(op);
            }
            rep.check("graph operations", || format!("{ops:?}"), || {
                let (mut m, mut g) = (Model::default(), DependencyGraph::new());
                for (i, op) in ops.iter().enumerate() {
                    let (w, h) = (m.step(op), real_step(&mut g, op));
                    if w != h {
                        return Some((format!("operation {i} {}", if w { "succeeds" } else { "is refused" }), format!("{}", if h { "succeeds" } else { "refused" })));
                    }
                    // the whole state after refused, removing and last operations; otherwise now and then
                    if !w || i + 1 == ops.len() || matches!(op, Op::Remove(_) | Op::Resolve(..)) || i % 3 == 0 {
                        if let Some((e, a)) = differs(&m, &g) {
                            return Some((format!("after operation {i}: {e}"), a));
                        }
                    }
                }
                None
            });
        }
        // larger graphs: layered, with cycles now and then
        for _ in 0..n / 40 {
            let sz = 10 + r.below(40);
            let (mut m, mut g) = (Model::default(), DependencyGraph::new());
            let mut ops = vec![];
            for i in 0..sz {
                ops.push(Op::Add(format!("p{i:02}"), Some("1".into())));
            }
            for _ in 0..sz * (1 + r.below(3)) {
                let (x, y) = (r.below(sz), r.below(sz));
                let (x, y) = if x > y && !r.chance(1, 40) { (y, x) } else { (x, y) };
                if x != y {
                    ops.push(Op::Edge(format!("p{x:02}-1"), format!("p{y:02}-1")));
                }
            }
            for op in &ops {
                m.step(op);
                real_step(&mut g, op);
            }
            rep.check("large graphs", || format!("{ops:?}"), || differs(&m, &g));
        }
    });
}
fn g02(a: &Args, rep: &mut Rep) {
    let (seed, n) = (a.seed, 1500 * a.scale());
    par(rep, 8, move |t, rep| {
        let mut r = Rng::new(seed * 4000 + t as u64);
        let specs = ["", ">=1", "<2", "<1", ">=2", "==1.0", "==1", "1.0+<2", ">=1,<3", "==3|==1", "<0.5|>=4", "!=1.0", ">1.0", "<=1.0", "1.0", "2", "bad spec !!", ">=1.0.0.1", "<1.0.0.1"];
        for _ in 0..n {
            let mut reqs: Vec<(String, Option<String>)> = vec![];
            let names = ["a", "b", "cc"];
            for _ in 0..r.below(9) {
                reqs.push((r.pick(&names).to_string(), if r.chance(1, 6) { None } else { Some(r.pick(&specs).to_string()) }));
            }
            let requires: Vec<(String, Vec<String>)> = (0..r.below(4)).map(|i| (format!("p{i}"), (0..r.below(3)).map(|_| r.pick(&["a", "b-1", "cc>=2", "d", "a-2+<3"]).to_string()).collect())).collect();
            rep.check("conflicts", || format!("requirements {reqs:?}, packages {requires:?}"), || {
                let mut g = DependencyGraph::new();
                for (n, rq) in &requires {
                    let mut p = Package::new(n.clone());
                    p.requires = rq.clone();
                    let _ = g.add_package(p);
                }
                for (n, s) in &reqs {
                    let q = PackageRequirement { version_spec: s.clone(), ..PackageRequirement::new(n.clone()) };
                    if g.add_requirement(q).is_err() {
                        return Some(("accepted".into(), "refused".into()));
                    }
                }
                let odds = |x: &Option<String>, y: &Option<String>| {
                    let (x, y) = (x.clone().unwrap_or_default(), y.clone().unwrap_or_default());
                    !x.is_empty() && !y.is_empty() && matches!((VersionRange::parse(&x), VersionRange::parse(&y)), (Ok(a), Ok(b)) if a.intersect(&b).is_none())
                };
                let mut want: BTreeMap<String, Vec<(String, Option<String>)>> = BTreeMap::new();
                for n in names {
                    let l: Vec<_> = reqs.iter().filter(|q| q.0 == n).cloned().collect();
                    if (0..l.len()).any(|i| (i + 1..l.len()).any(|j| odds(&l[i].1, &l[j].1))) {
                        want.insert(n.to_string(), l);
                    }
                }
                let c = g.detect_conflicts();
                let have: BTreeMap<String, Vec<(String, Option<String>)>> = c.iter().map(|c| (c.package_name.clone(), c.conflicting_requirements.iter().map(|r| (r.name.clone(), r.version_spec.clone())).collect())).collect();
                if c.len() != have.len() {
                    return Some(("each name once".into(), format!("{c:?}")));
                }
                eq(want, have)
            });
        }
    });
}
fn main() {
    let a = Args::get();
    let mut rep = Rep::new();
    match a.prop.as_str() {
        "G01" => g01(&a, &mut rep),
        "G02" => g02(&a, &mut rep),
        _ => {}
    }
    rep.finish()
}
