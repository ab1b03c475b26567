//! R01 requirements
use rez_next_package::{Requirement, VersionConstraint};
use rez_next_version::Version;
use rzharness::*;
use std::cmp::Ordering;
use std::collections::HashMap;

pub const RV: &[&str] = &[
    "1", "1.0", "1.1", "1.2", "1.2.3", "2", "2.0", "2.0.0", "2.1", "3", "0.9", "10", "10.2", "1.0.alpha", "1.10", "1.9", "1.rc1", "2.beta", "1.2.3.4",
    "4.5.6.7", "0", "0.0", "01.2", "1.02", "1.2a", "18446744073709551616.1", "2021.05.01", "3.11", "3.11.0", "3.9.7", "3.110",
];
const EXTRA: &[&str] = &["1.2.0", "1.2.4", "1.2.3.0", "1.2.3.rc1", "1.2.rc1", "2.0.1", "3.12", "9.9.9", "0.0.1", "1.02.3", "1.2-3", "1-2", "inf", ""];

fn at_depth(u: &str, c: &str) -> Ordering {
    if !vspec::tokens(c).is_empty() && c != "inf" && vspec::has_prefix(u, c) { Ordering::Equal } else { vspec::cmp(u, c) }
}
#[derive(Clone, Debug)]
enum C {
    Op(&'static str, String),
    Wild(String),
    Prefix(String),
    And(Vec<C>),
    Or(Vec<C>),
    Half(String, String),
    Not(Vec<String>),
    Any,
}
impl C {
    fn has(&self, u: &str) -> bool {
        match self {
            C::Op(op, v) => {
                let o = at_depth(u, v);
                match *op {
                    "==" => o == Ordering::Equal,
                    ">" => o == Ordering::Greater,
                    ">=" => o != Ordering::Less,
                    "<" => o == Ordering::Less,
                    "<=" => o != Ordering::Greater,
                    _ => {
                        let (p, q): (Vec<&str>, Vec<&str>) = (u.split('.').collect(), v.split('.').collect());
                        let n = q.len() - 1;
                        p.len() >= q.len() && p[..n] == q[..n] && match (p[n].parse::<u64>(), q[n].parse::<u64>()) {
                            (Ok(a), Ok(b)) => a >= b,
                            _ => p[n] >= q[n],
                        }
                    }
                }
            }
            C::Wild(w) => {
                let (p, q): (Vec<&str>, Vec<&str>) = (u.split('.').collect(), w.split('.').collect());
                match q.iter().position(|x| *x == "*") {
                    Some(k) => p.len() >= k && p[..k] == q[..k],
                    None => p == q,
                }
            }
            C::Prefix(v) => vspec::has_prefix(u, v),
            C::And(l) => l.iter().all(|c| c.has(u)),
            C::Or(l) => l.iter().any(|c| c.has(u)),
            C::Half(a, b) => vspec::cmp(a, u) != Ordering::Greater && vspec::cmp(u, b) == Ordering::Less,
            C::Not(l) => l.iter().all(|v| vspec::cmp(u, v) != Ordering::Equal),
            C::Any => true,
        }
    }
    fn real(&self) -> VersionConstraint {
        let p = |v: &str| Version::parse(v).unwrap();
        match self {
            C::Op("==", v) => VersionConstraint::Exact(p(v)),
            C::Op(">", v) => VersionConstraint::GreaterThan(p(v)),
            C::Op(">=", v) => VersionConstraint::GreaterThanOrEqual(p(v)),
            C::Op("<", v) => VersionConstraint::LessThan(p(v)),
            C::Op("<=", v) => VersionConstraint::LessThanOrEqual(p(v)),
            C::Op(_, v) => VersionConstraint::Compatible(p(v)),
            C::Wild(w) => VersionConstraint::Wildcard(w.clone()),
            C::Prefix(v) => VersionConstraint::Prefix(p(v)),
            C::And(l) => VersionConstraint::Multiple(l.iter().map(|c| c.real()).collect()),
            C::Or(l) => VersionConstraint::Alternative(l.iter().map(|c| c.real()).collect()),
            C::Half(a, b) => VersionConstraint::Range(p(a), p(b)),
            C::Not(l) => VersionConstraint::Exclude(l.iter().map(|v| p(v)).collect()),
            C::Any => VersionConstraint::Any,
        }
    }
}
const OPS: &[&str] = &["==", ">", ">=", "<", "<=", "~="];
fn rv(r: &mut Rng) -> String {
    r.pick(RV).to_string()
}
fn rand_con(r: &mut Rng, depth: usize) -> C {
    match r.below(if depth == 0 { 12 } else { 16 }) {
        0..=6 => C::Op(r.pick(OPS), rv(r)),
        7 => C::Wild(wild(r)),
        8 => C::Prefix(rv(r)),
        9 => C::Half(rv(r), rv(r)),
        10 => C::Not((0..r.below(3)).map(|_| rv(r)).collect()),
        11 => C::Any,
        12 | 13 => C::And((0..r.below(4)).map(|_| rand_con(r, depth - 1)).collect()),
        _ => C::Or((0..r.below(4)).map(|_| rand_con(r, depth - 1)).collect()),
    }
}
fn wild(r: &mut Rng) -> String {
    let v = rv(r);
    let mut p: Vec<&str> = v.split('.').collect();
    let k = r.below(p.len() + 1);
    p.truncate(k);
    p.push("*");
    if r.chance(1, 5) { p.push("0"); }
    p.join(".")
}
fn asks(r: &mut Rng) -> Vec<String> {
    let mut us: Vec<String> = RV.iter().chain(EXTRA).map(|s| s.to_string()).collect();
    for _ in 0..4 {
        us.push(format!("{}.{}", r.pick(RV), r.pick(&["0", "1", "a", "rc1", "00", "99"])));
    }
    us
}
fn sat(rep: &mut Rep, part: &str, text: &str, want: &C, us: &[String], got: impl Fn(&Version) -> bool) {
    for u in us {
        if let Ok(v) = Version::parse(u) {
            rep.check(part, || format!("{text} with version {u:?}"), || eq(want.has(u), got(&v)));
        }
    }
}
#[derive(Clone, Debug, Default)]
struct Conds {
    plat: Vec<(String, Option<String>, bool)>,
    env: Vec<(String, Option<String>, bool)>,
}
impl Conds {
    fn plat_ok(&self, p: &str, a: Option<&str>) -> bool {
        for (cp, ca, neg) in &self.plat {
            if cp == p && ca.as_deref().map_or(true, |x| Some(x) == a) {
                return !neg;
            }
        }
        self.plat.iter().all(|c| c.2)
    }
    fn env_ok(&self, m: &HashMap<String, String>) -> bool {
        self.env.iter().all(|(k, v, neg)| {
            let hit = match (m.get(k), v) { (None, _) => false, (Some(_), None) => true, (Some(x), Some(y)) => x == y };
            hit != *neg
        })
    }
}
const PL: &[&str] = &["linux", "windows", "darwin"];
const AR: &[&str] = &["x86_64", "aarch64"];
const VN: &[&str] = &["CI", "MODE", "A_B"];
const VV: &[&str] = &["1", "true", "a==b", "x!=y", "", "two words", "[x"];
fn rand_conds(r: &mut Rng) -> (Conds, String) {
    let mut c = Conds::default();
    let mut t = String::new();
    for _ in 0..r.below(3) {
        let p = r.pick(PL).to_string();
        let a = if r.chance(1, 2) { Some(r.pick(AR).to_string()) } else { None };
        let n = r.chance(1, 2);
        t += &format!("[platform{}'{}'{}]", if n { "!=" } else { "==" }, p, a.as_ref().map(|a| format!(" and arch=='{a}'")).unwrap_or_default());
        c.plat.push((p, a, n));
    }
    for _ in 0..r.below(3) {
        let k = r.pick(VN).to_string();
        let n = r.chance(1, 2);
        if r.chance(1, 3) {
            t += &if n { format!("[env.{k}!=None]") } else { format!("[env.{k}]") };
            c.env.push((k, None, n));
        } else {
            let v = r.pick(VV).to_string();
            t += &format!("[env.{k}{}'{v}']", if n { "!=" } else { "==" });
            c.env.push((k, Some(v), n));
        }
    }
    (c, t)
}
/// version part of a requirement text
fn rand_ver_part(r: &mut Rng) -> (C, String, bool) {
    match r.below(10) {
        0 => (C::Any, String::new(), true),
        1 | 2 => {
            let (o, v) = (*r.pick(OPS), rv(r));
            let t = format!("{o}{v}");
            (C::Op(o, v), t, true)
        }
        3 | 4 => {
            let n = 2 + r.below(2);
            let l: Vec<(&'static str, String)> = (0..n).map(|_| (*r.pick(OPS), rv(r))).collect();
            let sep = *r.pick(&[",", ", "]);
            let t = l.iter().map(|(o, v)| format!("{o}{v}")).collect::<Vec<_>>().join(sep);
            (C::And(l.into_iter().map(|(o, v)| C::Op(o, v)).collect()), t, true)
        }
        5 => {
            let w = format!("{}.{}", rv(r).split('.').next().unwrap(), wild(r));
            let t = format!("=={w}");
            (C::Wild(w), t, true)
        }
        6 => {
            let v = rv(r);
            let t = format!("-{v}");
            (C::Prefix(v), t, false)
        }
        7 => {
            let v = rv(r);
            let t = format!("-{v}+");
            (C::Op(">=", v), t, false)
        }
        8 => {
            let (a, b) = (rv(r), rv(r));
            let t = format!("-{a}..{b}");
            (C::And(vec![C::Op(">=", a), C::Op("<", b)]), t, false)
        }
        _ => {
            let (a, b) = (rv(r), rv(r));
            let le = r.chance(1, 3);
            let t = format!("-{a}+{}{b}", if le { "<=" } else { "<" });
            (C::And(vec![C::Op(">=", a), C::Op(if le { "<=" } else { "<" }, b)]), t, false)
        }
    }
}
fn envs() -> Vec<HashMap<String, String>> {
    let mut out = vec![HashMap::new()];
    for k in VN {
        for v in VV {
            out.push([(k.to_string(), v.to_string())].into());
            out.push([(k.to_string(), v.to_string()), ("CI".to_string(), "1".to_string())].into());
        }
    }
    out
}
fn r01(a: &Args) {
    let mut rep = Rep::new();
    let mut r = Rng::new(a.seed + 11);
    let us = asks(&mut r);
    let envs = envs();
    // every operator with every version against every version
    for op in OPS {
        for v in RV {
            let c = C::Op(op, v.to_string());
            sat(&mut rep, "one operator", &format!("{op}{v}"), &c, &us, |x| c.real().is_satisfied_by(x));
        }
    }
    for v in RV {
        let c = C::Prefix(v.to_string());
        sat(&mut rep, "prefix", &format!("-{v}"), &c, &us, |x| c.real().is_satisfied_by(x));
    }
    // combined constraints, and / or
    for i in 0..1200 * a.scale() {
        let us = if i % 10 == 0 { asks(&mut r) } else { us.clone() };
        let (c, d) = (rand_con(&mut r, 2), rand_con(&mut r, 1));
        let real = c.real();
        sat(&mut rep, "constraint", &format!("{c:?}"), &c, &us, |x| real.is_satisfied_by(x));
        let (and, or) = (c.real().and(d.real()), c.real().or(d.real()));
        sat(&mut rep, "and", &format!("({c:?}) and ({d:?})"), &C::And(vec![c.clone(), d.clone()]), &us, |x| and.is_satisfied_by(x));
        sat(&mut rep, "or", &format!("({c:?}) or ({d:?})"), &C::Or(vec![c.clone(), d.clone()]), &us, |x| or.is_satisfied_by(x));
    }
    // texts
    for _ in 0..2500 * a.scale() {
        let (c, vt, dash_ok) = rand_ver_part(&mut r);
        let name = if dash_ok && !vt.is_empty() { *r.pick(&["foo", "foo_bar", "my-tool", "py.thing", "x9"]) } else { *r.pick(&["foo", "foo_bar", "py.thing", "x9"]) };
        let (conds, ct) = rand_conds(&mut r);
        let pre = *r.pick(&["", "", "", "!", "~"]);
        let ns = *r.pick(&["", "", "studio"]);
        let text = format!("{pre}{}{name}{vt}{ct}", if ns.is_empty() { String::new() } else { format!("{ns}::") });
        let padded = if r.chance(1, 4) { format!(" {text} ") } else { text.clone() };
        let req = match std::panic::catch_unwind(|| padded.parse::<Requirement>()) {
            Ok(Ok(x)) => x,
            other => {
                rep.fail("requirement texts of the documented forms parse", padded.clone(), "Ok".into(), format!("{other:?}"));
                continue;
            }
        };
        let mut forms = vec![("parsed", req.clone())];
        let shown = req.to_string();
        match shown.parse::<Requirement>() {
            Ok(x) => forms.push(("printed and parsed again", x)),
            Err(e) => rep.fail("a printed requirement parses", format!("{text} printed as {shown}"), "Ok".into(), format!("{e:?}")),
        }
        for (how, q) in &forms {
            let inp = || format!("{text:?} ({how})");
            rep.check("name, namespace and kind", inp, || {
                eq((name.to_string(), pre == "!", pre == "~", if ns.is_empty() { None } else { Some(ns.to_string()) }), (q.name.clone(), q.conflict, q.weak, q.namespace.clone()))
            });
            sat(&mut rep, &format!("version satisfaction ({how})"), &text, &c, &us, |x| q.is_satisfied_by(x));
            for p in PL {
                for ar in [None, Some("x86_64"), Some("aarch64")] {
                    rep.check("platform conditions", || format!("{text:?} ({how}) on {p} {ar:?}"), || eq(conds.plat_ok(p, ar), q.is_platform_satisfied(p, ar)));
                }
            }
            if !conds.env.is_empty() {
                for m in &envs {
                    rep.check("environment conditions", || format!("{text:?} ({how}) in {m:?}"), || eq(conds.env_ok(m), q.is_env_satisfied(m)));
                }
            }
        }
    }
    let cs = ['1', '.', '0', '>', '<', '=', '!', '~', '+', '[', ']', ',', ' ', '*', 'a', '-', 'é', ':', '\'', 'p'];
    for i in 0..4000 * a.scale() {
        let n = r.below(12);
        let mut text: String = (0..n).map(|_| *r.pick(&cs)).collect();
        if i % 3 == 0 { text = format!("foo[{}{text}]", r.pick(&["platform", "env.", "platform=='linux' and arch"])); }
        rep.check("any text is answered", || text.clone(), || {
            if let Ok(x) = text.parse::<Requirement>() {
                let _ = (x.is_satisfied_by(&Version::parse("1.0").unwrap()), x.is_platform_satisfied("linux", None), x.is_env_satisfied(&envs[1]), x.to_string());
            }
            None
        });
    }
    rep.finish()
}

fn main() {
    let a = Args::get();
    match a.prop.as_str() {
        "R01" => r01(&a),
        _ => std::process::exit(3),
    }
}
