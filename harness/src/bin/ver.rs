//! V01 version order, V02 range membership, V03 range algebra
use rez_next_version::{Version, VersionRange};
use rzharness::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

const TOKS: &[&str] = &[
    "0", "00", "1", "01", "2", "9", "10", "007", "99", "100", "a", "b", "B", "alpha", "rc1", "rc01", "rc10", "rc", "1a", "1a2", "1a02",
    "a1b", "x_1", "9223372036854775807", "9223372036854775808", "18446744073709551616", "rc18446744073709551616", "rc2",
];
const SEPS: &[&str] = &[".", "-", "."];

fn h(v: &Version) -> u64 {
    let mut s = DefaultHasher::new();
    v.hash(&mut s);
    s.finish()
}

fn rand_version(r: &mut Rng) -> String {
    let n = 1 + r.below(4);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(r.pick(SEPS));
        }
        if r.chance(3, 4) {
            s.push_str(r.pick(TOKS));
        } else {
            let l = 1 + r.below(6);
            for _ in 0..l {
                s.push(*r.pick(&['0', '1', '2', '9', 'a', 'z', 'A', 'c']));
            }
        }
    }
    s
}

fn universe(tier: &str, r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = vec!["".into(), "inf".into(), "epsilon".into()];
    for a in TOKS {
        v.push(a.to_string());
    }
    let short = ["0", "1", "01", "2", "10", "a", "rc1", "alpha"];
    for a in &short {
        for b in &short {
            v.push(format!("{a}.{b}"));
            if tier != "quick" || r.chance(1, 3) {
                for c in &short {
                    v.push(format!("{a}.{b}.{c}"));
                }
            }
        }
    }
    for t in ["1.0.0.0.0", "1.0.0.0.1", "1-0", "1.0-a", "2.alpha1", "2.beta", "1.2.3.4.5", "1.0.0.0.alpha", "a.0.0", "a.0", "a.0.1", "a.b.0"] {
        v.push(t.into());
    }
    v
}

fn v01(a: &Args) {
    let mut rep = Rep::new();
    let mut r = Rng::new(a.seed);
    let mut texts = universe(&a.tier, &mut r);
    for _ in 0..150 * a.scale().min(4) {
        texts.push(rand_version(&mut r));
    }
    let mut vs: Vec<(String, Version)> = vec![];
    for t in &texts {
        let t2 = t.clone();
        rep.check("parse keeps the text", || t.clone(), || match Version::parse(&t2) {
            Ok(v) => {
                let want = if t2 == "epsilon" { "" } else { t2.as_str() };
                eq(want.to_string(), v.as_str().to_string())
            }
            Err(_) => None,
        });
        if let Ok(v) = Version::parse(t) {
            vs.push((t.clone(), v));
        }
    }
    rep.check("ordinary versions parse", || "universe".into(), || if vs.len() > 80 { None } else { Some(("more than 80 accepted".into(), vs.len().to_string())) });
    let pair = |rep: &mut Rep, x: &(String, Version), y: &(String, Version)| {
        let inp = || format!("{:?} vs {:?}", x.0, y.0);
        let want = vspec::cmp(&x.0, &y.0);
        rep.check("cmp is the version order", inp, || eq(want, x.1.cmp(&y.1)));
        rep.check("partial_cmp and operators agree", inp, || {
            eq(
                (Some(want), want == Ordering::Less, want != Ordering::Greater, want == Ordering::Greater, want != Ordering::Less, want == Ordering::Equal, want != Ordering::Equal),
                (x.1.partial_cmp(&y.1), x.1 < y.1, x.1 <= y.1, x.1 > y.1, x.1 >= y.1, x.1 == y.1, x.1 != y.1),
            )
        });
        if want == Ordering::Equal {
            rep.check("equal versions hash alike", inp, || eq(h(&x.1), h(&y.1)));
        }
        rep.check("has_prefix compares leading tokens", inp, || eq(vspec::has_prefix(&x.0, &y.0), x.1.has_prefix(&y.1)));
    };
    for x in &vs {
        for y in &vs {
            pair(&mut rep, x, y);
        }
    }
    for (t, v) in &vs {
        rep.check("clone and reparse are equal", || t.clone(), || eq((true, true), (v.clone() == *v, Version::parse(v.as_str()).map(|w| w == *v).unwrap_or(false))));
        rep.check("special versions", || t.clone(), || eq((t == "inf", t.is_empty() || t == "epsilon"), (v.is_inf(), v.is_empty())));
    }
    for _ in 0..20000 * a.scale() {
        let (s, t) = (rand_version(&mut r), rand_version(&mut r));
        if let (Ok(v), Ok(w)) = (Version::parse(&s), Version::parse(&t)) {
            pair(&mut rep, &(s, v), &(t, w));
        }
    }
    // sorting a list puts every pair in order (total preorder on the list)
    for _ in 0..200 * a.scale() {
        let mut l: Vec<(String, Version)> = (0..12).filter_map(|_| { let s = rand_version(&mut r); Version::parse(&s).ok().map(|v| (s, v)) }).collect();
        l.sort_by(|x, y| x.1.cmp(&y.1));
        let names: Vec<String> = l.iter().map(|x| x.0.clone()).collect();
        rep.check("sorting is consistent", || format!("{names:?}"), || {
            for i in 0..l.len() {
                for j in i..l.len() {
                    if l[i].1 > l[j].1 {
                        return Some(("sorted".into(), format!("{} > {}", l[i].0, l[j].0)));
                    }
                }
            }
            None
        });
    }
    rep.finish()
}


// ---------------------------------------------------------------- ranges
/// one bound of a conjunction: operator and version text ("" operator = any)
type B = (&'static str, String);
const OPS: &[&str] = &[">=", ">", "<=", "<", "==", "!=", "~=", "bare"];
const RV: &[&str] = &[
    "1", "1.0", "1.1", "1.2", "1.2.3", "2", "2.0", "2.0.0", "2.1", "3", "0.9", "10", "10.2", "1.0.alpha", "1.10", "1.9", "1.rc1", "2.beta", "18446744073709551615.1", "3.18446744073709551615.2",
    "1.a.2", "4.5.6.7", "0", "0.0",
];

fn compat_upper(v: &str) -> Option<String> {
    let p: Vec<&str> = v.split('.').collect();
    let next = |t: &str| t.parse::<u64>().ok().and_then(|n| n.checked_add(1));
    match p.len() {
        0 | 1 => None,
        2 => next(p[0]).map(|n| format!("{n}.0")),
        _ => next(p[1]).map(|n| format!("{}.{n}.0", p[0])),
    }
}
fn bound_ok(b: &B, u: &str) -> bool {
    let c = vspec::cmp(u, &b.1);
    match b.0 {
        ">=" => c != Ordering::Less,
        ">" => c == Ordering::Greater,
        "<=" => c != Ordering::Greater,
        "<" => c == Ordering::Less,
        "==" | "bare" => c == Ordering::Equal,
        "!=" => c != Ordering::Equal,
        "~=" => c != Ordering::Less && compat_upper(&b.1).map(|x| vspec::cmp(u, &x) == Ordering::Less).unwrap_or(true),
        "none" => false,
        _ => true,
    }
}
#[derive(Clone, Debug)]
enum R {
    Leaf(Vec<Vec<B>>),
    Union(Box<R>, Box<R>),
    Inter(Box<R>, Box<R>),
    Sub(Box<R>, Box<R>),
}
impl R {
    fn has(&self, u: &str) -> bool {
        match self {
            R::Leaf(d) => d.iter().any(|c| c.iter().all(|b| bound_ok(b, u))),
            R::Union(a, b) => a.has(u) || b.has(u),
            R::Inter(a, b) => a.has(u) && b.has(u),
            R::Sub(a, b) => a.has(u) && !b.has(u),
        }
    }
    /// version texts of the bounds outside subtracted ranges
    fn texts(&self, out: &mut Vec<String>) {
        match self {
            R::Leaf(d) => out.extend(d.iter().flatten().map(|b| b.1.clone()).filter(|t| !t.is_empty())),
            R::Union(a, b) | R::Inter(a, b) => {
                a.texts(out);
                b.texts(out);
            }
            R::Sub(a, _) => a.texts(out),
        }
    }
    fn all_texts(&self, out: &mut Vec<String>) {
        match self {
            R::Leaf(d) => out.extend(d.iter().flatten().map(|b| b.1.clone()).filter(|t| !t.is_empty())),
            R::Union(a, b) | R::Inter(a, b) | R::Sub(a, b) => {
                a.all_texts(out);
                b.all_texts(out);
            }
        }
    }
    fn show(&self) -> String {
        match self {
            R::Leaf(d) => d.iter().map(|c| c.iter().map(|b| format!("{}{}", b.0, b.1)).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join("|"),
            R::Union(a, b) => format!("union({}, {})", a.show(), b.show()),
            R::Inter(a, b) => format!("intersect({}, {})", a.show(), b.show()),
            R::Sub(a, b) => format!("subtract({}, {})", a.show(), b.show()),
        }
    }
}
fn op_text(b: &B, r: &mut Rng) -> String {
    let sp = if r.chance(1, 8) { " " } else { "" };
    match b.0 {
        "bare" => b.1.clone(),
        "any" => "*".into(),
        o => format!("{o}{sp}{}", b.1),
    }
}
/// a random union of conjunctions and one of the texts that denote it
fn rand_leaf(r: &mut Rng) -> (R, String) {
    match r.below(16) {
        0 => return (R::Leaf(vec![vec![("any", String::new())]]), r.pick(&["", "*", " ", " * ", "\t"]).to_string()),
        1 => return (R::Leaf(vec![vec![("none", String::new())]]), r.pick(&["empty", "!*", " empty "]).to_string()),
        2 | 3 => {
            let (a, b) = (r.pick(RV).to_string(), r.pick(RV).to_string());
            let sp = if r.chance(1, 4) { " " } else { "" };
            let t = format!("{sp}{a}..{b}{sp}");
            return (R::Leaf(vec![vec![(">=", a), ("<", b)]]), t);
        }
        _ => {}
    }
    let n = 1 + r.below(3);
    let (mut d, mut ts) = (vec![], vec![]);
    for _ in 0..n {
        let mut c: Vec<B> = vec![];
        let mut t = String::new();
        match r.below(6) {
            0 => {
                let v = r.pick(RV).to_string();
                t = format!("{v}+");
                c.push((">=", v));
            }
            1 => {
                let (v, w) = (r.pick(RV).to_string(), r.pick(RV).to_string());
                let o = *r.pick(&["<", "<=", "!=", "~="]);
                t = format!("{v}+{o}{w}");
                c.push((">=", v));
                c.push((o, w));
            }
            2 if n > 1 => {
                t = "*".into();
                c.push(("any", String::new()));
            }
            _ => {
                let m = 1 + r.below(3);
                for i in 0..m {
                    let b: B = (*r.pick(OPS), r.pick(RV).to_string());
                    if i > 0 {
                        let spaced = b.0 != "bare" && r.chance(1, 2);
                        t.push_str(if spaced { *r.pick(&[" ", "  "]) } else { *r.pick(&[",", ", ", " , ", ",,"]) });
                    }
                    t.push_str(&op_text(&b, r));
                    c.push(b);
                }
            }
        }
        d.push(c);
        ts.push(t);
    }
    let j = *r.pick(&["|", " | ", "| "]);
    let pad = if r.chance(1, 6) { " " } else { "" };
    (R::Leaf(d), format!("{pad}{}{pad}", ts.join(j)))
}
/// versions worth asking about: the bounds, their neighbours, a fixed grid
fn asks(t: &R, r: &mut Rng) -> Vec<String> {
    let mut v = vec![];
    t.all_texts(&mut v);
    let mut out: Vec<String> = ["0", "0.9.9", "1.0.0", "1.0.1", "1.1.5", "1.2.4", "1.3", "1.9.9", "2.0.1", "2.1.0.1", "2.5", "9", "11", "999.1", "a", "1.0.alpha", "1.beta", "2.a", "inf", "18446744073709551616"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    for x in v {
        out.push(format!("{x}.0"));
        out.push(format!("{x}.1"));
        out.push(format!("{x}.a"));
        out.push(format!("{x}.0.a"));
        if let Some(u) = compat_upper(&x) {
            out.push(u.clone());
            out.push(format!("{u}.a"));
            out.push(format!("{u}.1"));
        }
        out.push(x);
    }
    out.push(rand_version(r));
    out
}
fn member(rep: &mut Rep, part: &str, t: &R, text: &str, real: &VersionRange, us: &[String]) {
    for u in us {
        if let Ok(v) = Version::parse(u) {
            rep.check(part, || format!("range {text:?} version {u:?}"), || eq(t.has(u), real.contains(&v)));
        }
    }
}

fn v02(a: &Args) {
    let mut rep = Rep::new();
    let mut r = Rng::new(a.seed + 2);
    // every operator against every pair of listed versions
    for op in OPS {
        for v in RV {
            let b: B = (*op, v.to_string());
            let t = R::Leaf(vec![vec![b.clone()]]);
            let text = if *op == "bare" { v.to_string() } else { format!("{op}{v}") };
            rep.check("single bounds parse", || text.clone(), || eq(true, VersionRange::parse(&text).is_ok()));
            if let Ok(real) = VersionRange::parse(&text) {
                let us: Vec<String> = RV.iter().map(|s| s.to_string()).chain(asks(&t, &mut r)).collect();
                member(&mut rep, "one bound", &t, &text, &real, &us);
            }
        }
    }
    for _ in 0..2500 * a.scale() {
        let (t, text) = rand_leaf(&mut r);
        let real = match std::panic::catch_unwind(|| VersionRange::parse(&text)) {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => {
                rep.fail("range texts of the documented forms parse", text.clone(), "Ok".into(), format!("{e:?}"));
                continue;
            }
            Err(_) => {
                rep.fail("range texts of the documented forms parse", text.clone(), "Ok".into(), "panic".into());
                continue;
            }
        };
        rep.check("as_str is the text given", || text.clone(), || eq(text.clone(), real.as_str().to_string()));
        let us = asks(&t, &mut r);
        member(&mut rep, "membership", &t, &text, &real, &us);
    }
    // arbitrary texts: an answer or an error, never a panic
    let cs = ['1', '.', '0', '>', '<', '=', '!', '~', '+', '|', ',', ' ', '*', 'a', '-', 'é', '2'];
    for _ in 0..20000 * a.scale() {
        let n = r.below(9);
        let text: String = (0..n).map(|_| *r.pick(&cs)).collect();
        rep.check("any text is answered", || text.clone(), || {
            if let Ok(x) = VersionRange::parse(&text) {
                let _ = x.contains(&Version::parse("1.0").unwrap());
                let _ = (x.is_any(), x.is_empty());
            }
            None
        });
    }
    rep.finish()
}

fn build(r: &mut Rng, depth: usize, rep: &mut Rep) -> Option<(R, VersionRange)> {
    if depth == 0 || r.chance(1, 4) {
        let (t, text) = rand_leaf(r);
        return VersionRange::parse(&text).ok().map(|x| (t, x));
    }
    let (ta, xa) = build(r, depth - 1, rep)?;
    let (tb, xb) = build(r, depth - 1, rep)?;
    let both = R::Inter(Box::new(ta.clone()), Box::new(tb.clone()));
    let us = asks(&both, r);
    // predicates of the operands
    for (t, x) in [(&ta, &xa), (&tb, &xb)] {
        let any = x.is_any();
        let none = x.is_empty();
        rep.check("is_any / is_empty tell the truth", || t.show(), || {
            for u in &us {
                if Version::parse(u).is_ok() && ((any && !t.has(u)) || (none && t.has(u))) {
                    return Some((format!("{u}: member={}", t.has(u)), format!("is_any={any} is_empty={none}")));
                }
            }
            None
        });
    }
    let sub = xa.is_subset_of(&xb);
    let sup = xb.is_superset_of(&xa);
    let diff = R::Sub(Box::new(ta.clone()), Box::new(tb.clone()));
    let mut probes = vec!["0.0.1".to_string(), "999.999.999".to_string()];
    let mut vs = vec![];
    ta.texts(&mut vs);
    tb.texts(&mut vs);
    for v in vs {
        probes.push(format!("{v}.999999"));
        probes.push(v);
    }
    let missed = !probes.iter().any(|p| diff.has(p));
    let kf = if missed { Some("probe-set-misses-remainder") } else { None };
    rep.check("superset is the converse of subset", || format!("{} / {}", ta.show(), tb.show()), || eq(sub, sup));
    if sub {
        rep.check_kf("is_subset_of answers yes only when it is", || format!("{} subset of {}", ta.show(), tb.show()), kf, || {
            us.iter().find(|u| Version::parse(u).is_ok() && diff.has(u)).map(|u| (format!("{u} only in the first"), "subset".to_string()))
        });
    }
    let inter = xa.intersects(&xb);
    rep.check("intersects answers no only when nothing is common", || format!("{} / {}", ta.show(), tb.show()), || {
        if inter { return None; }
        us.iter().find(|u| Version::parse(u).is_ok() && both.has(u)).map(|u| (format!("{u} in both"), "false".to_string()))
    });
    let (t, x) = match r.below(3) {
        0 => (R::Union(Box::new(ta.clone()), Box::new(tb.clone())), Some(xa.union(&xb))),
        1 => (both.clone(), xa.intersect(&xb)),
        _ => (diff.clone(), xa.subtract(&xb)),
    };
    match x {
        None => {
            let k = if matches!(t, R::Sub(..)) { kf } else { None };
            rep.check_kf("no result only when the result is empty", || t.show(), k, || {
                us.iter().find(|u| Version::parse(u).is_ok() && t.has(u)).map(|u| (format!("{u} is a member"), "None".to_string()))
            });
            None
        }
        Some(x) => {
            let part = match t { R::Union(..) => "union", R::Inter(..) => "intersect", _ => "subtract" };
            let name = t.show();
            member(rep, part, &t, &name, &x, &us);
            Some((t, x))
        }
    }
}

fn v03(a: &Args) {
    let mut rep = Rep::new();
    let mut r = Rng::new(a.seed + 3);
    for (t, x) in [(R::Leaf(vec![vec![("any", String::new())]]), VersionRange::any()), (R::Leaf(vec![vec![("none", String::new())]]), VersionRange::none())] {
        let us = asks(&t, &mut r);
        member(&mut rep, "any / none", &t, "constructor", &x, &us);
    }
    rep.check_kf("no result only when the result is empty", || "subtract('>=1.9,<2.1', '<=2'): 2.0.1 remains".into(), Some("probe-set-misses-remainder"), || {
        let d = VersionRange::parse(">=1.9,<2.1").unwrap().subtract(&VersionRange::parse("<=2").unwrap());
        let has = d.map(|x| x.contains(&Version::parse("2.0.1").unwrap()));
        eq(Some(true), has)
    });
    for i in 0..4000 * a.scale() {
        let mut rr = Rng::new(r.next());
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut rr2 = Rng(rr.0);
            build(&mut rr2, 1 + i % 3, &mut rep);
        }));
        if res.is_err() {
            rep.fail("operations do not panic", format!("expression of seed {}", rr.next()), "no panic".into(), "panic".into());
        }
    }
    rep.finish()
}

fn main() {
    let a = Args::get();
    match a.prop.as_str() {
        "V01" => v01(&a),
        "V02" => v02(&a),
        "V03" => v03(&a),
        _ => std::process::exit(3),
    }
}
