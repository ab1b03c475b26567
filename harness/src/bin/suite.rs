//! U01 suites: which tools a suite exposes
use rez_next_suites::{Suite, SuiteTool, ToolConflictMode};
use rzharness::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
enum Op {
    Add(String, Vec<String>),
    Remove(String),
    Alias(String, String, String),
    Hide(String, String),
    Disable(String, bool),
}
#[derive(Clone, Debug, Default, PartialEq)]
struct Ctx {
    name: String,
    reqs: Vec<String>,
    aliases: BTreeMap<String, String>,
    hidden: Vec<String>,
    disabled: bool,
}
fn step(m: &mut Vec<Ctx>, op: &Op) -> bool {
    let at = |m: &Vec<Ctx>, n: &String| m.iter().position(|c| c.name == *n);
    match op {
        Op::Add(n, r) => {
            if n.is_empty() || !n.chars().all(|c| c.is_alphanumeric() || c == '-' || c == '_') || at(m, n).is_some() {
                return false;
            }
            m.push(Ctx { name: n.clone(), reqs: r.clone(), ..Ctx::default() });
        }
        Op::Remove(n) => match at(m, n) {
            Some(i) => {
                m.remove(i);
            }
            None => return false,
        },
        Op::Alias(n, a, t) => match at(m, n) {
            Some(i) => {
                m[i].aliases.insert(a.clone(), t.clone());
            }
            None => return false,
        },
        Op::Hide(n, t) => match at(m, n) {
            Some(i) => {
                if !m[i].hidden.contains(t) {
                    m[i].hidden.push(t.clone());
                }
            }
            None => return false,
        },
        Op::Disable(n, d) => match at(m, n) {
            Some(i) => m[i].disabled = *d,
            None => return false,
        },
    }
    true
}
fn real(s: &mut Suite, op: &Op) -> bool {
    match op {
        Op::Add(n, r) => s.add_context(n.clone(), r.clone()).is_ok(),
        Op::Remove(n) => s.remove_context(n).is_ok(),
        Op::Alias(n, a, t) => s.alias_tool(n, a.clone(), t.clone()).is_ok(),
        Op::Hide(n, t) => s.hide_tool(n, t).is_ok(),
        Op::Disable(n, d) => match s.get_context_mut(n) {
            Some(c) => {
                c.disabled = *d;
                true
            }
            None => false,
        },
    }
}
fn state(s: &Suite) -> Vec<Ctx> {
    s.contexts()
        .iter()
        .map(|c| Ctx { name: c.name.clone(), reqs: c.requests.clone(), aliases: c.tool_aliases.clone().into_iter().collect(), hidden: c.hidden_tools.clone(), disabled: c.disabled })
        .collect()
}
fn show(t: &SuiteTool) -> String {
    format!("{} = {} of {} ({}){}{}", t.name, t.original_name, t.context_name, t.package, if t.is_alias { " alias" } else { "" }, if t.is_hidden { " hidden" } else { "" })
}
fn want(c: &Ctx, n: &str, shown: &str) -> String {
    let o = &c.aliases[n];
    format!("{shown} = {o} of {} ({}){}", c.name, c.reqs.first().cloned().unwrap_or_default(), if shown != o { " alias" } else { "" })
}
fn tools(m: &[Ctx], mode: &ToolConflictMode, s: &Suite) -> Option<(String, String)> {
    let mut exposed: Vec<(usize, String)> = vec![];
    for (i, c) in m.iter().enumerate() {
        if !c.disabled {
            exposed.extend(c.aliases.iter().filter(|(_, o)| !c.hidden.contains(o)).map(|(a, _)| (i, a.clone())));
        }
    }
    let names: BTreeSet<String> = exposed.iter().map(|e| e.1.clone()).collect();
    let clash = names.len() != exposed.len();
    let got = match s.get_tools() {
        Err(e) => {
            if clash && *mode == ToolConflictMode::Error {
                return None;
            }
            return Some(("tools".into(), format!("{e:?}")));
        }
        Ok(t) => t,
    };
    if clash && *mode == ToolConflictMode::Error {
        return Some(("a conflict".into(), format!("{got:?}")));
    }
    if let Some((k, t)) = got.iter().find(|(k, t)| **k != t.name) {
        return Some((format!("tool {} under its name", t.name), format!("under {k}")));
    }
    let have: BTreeMap<String, String> = got.iter().map(|(k, t)| (k.clone(), show(t))).collect();
    if *mode != ToolConflictMode::Prefix {
        let w: BTreeMap<String, String> = names
            .iter()
            .map(|n| {
                let mut l = exposed.iter().filter(|e| e.1 == *n);
                let e = if *mode == ToolConflictMode::Last { l.last() } else { l.next() }.unwrap();
                (n.clone(), want(&m[e.0], n, n))
            })
            .collect();
        return eq(w, have);
    }
    // Prefix: every exposed alias has a tool of its own, under its name or <context>_..._<name>, the latter only if somebody else has the name
    if have.len() != exposed.len() {
        return Some((format!("{} tools, one for each of {exposed:?}", exposed.len()), format!("{have:?}")));
    }
    let mut used = BTreeSet::new();
    for (i, n) in &exposed {
        let mut shown = n.clone();
        let mut ok = false;
        for k in 0..9 {
            if k > 0 {
                shown = format!("{}_{shown}", m[*i].name);
            }
            if have.get(&shown) == Some(&want(&m[*i], n, &shown)) && (k == 0 || have.contains_key(n)) && !used.contains(&shown) {
                used.insert(shown.clone());
                ok = true;
                break;
            }
        }
        if !ok {
            return Some((format!("a tool for {n} of {}", m[*i].name), format!("{have:?}")));
        }
    }
    // without such coincidences: the first one keeps its name, the others are prefixed once
    if !names.iter().any(|n| m.iter().any(|c| n.starts_with(&format!("{}_", c.name)))) {
        let mut w = BTreeMap::new();
        for (i, n) in &exposed {
            let sh = if w.contains_key(n) { format!("{}_{n}", m[*i].name) } else { n.clone() };
            w.insert(sh.clone(), want(&m[*i], n, &sh));
        }
        return eq(w, have);
    }
    None
}
fn u01(a: &Args, rep: &mut Rep) {
    let (seed, n) = (a.seed, 3000 * a.scale());
    par(rep, 8, move |t, rep| {
        let mut r = Rng::new(seed * 6000 + t as u64);
        let ctxs = ["a", "b", "maya-2", "b_b", "bad name", "", "é1", "x/y"];
        let names = ["x", "y", "b_x", "b_b_x", "a_x", "maya-2_x", "z z"];
        for _ in 0..n {
            let mode = r.pick(&[ToolConflictMode::Error, ToolConflictMode::First, ToolConflictMode::Last, ToolConflictMode::Prefix, ToolConflictMode::Prefix]).clone();
            let wide = r.below(2);
            let ops: Vec<Op> = (0..3 + r.below(18))
                .map(|_| {
                    let c = r.pick(&ctxs[..if wide == 0 { 4 } else { 8 }]).to_string();
                    match r.below(12) {
                        0..=2 => Op::Add(c, (0..r.below(3)).map(|i| format!("p{i}-{}", r.below(3))).collect()),
                        3 => Op::Remove(c),
                        4 => Op::Hide(c, r.pick(&names).to_string()),
                        5 => Op::Disable(c, r.chance(2, 3)),
                        _ => Op::Alias(c, r.pick(&names).to_string(), r.pick(&names).to_string()),
                    }
                })
                .collect();
            rep.check("suite operations", || format!("{mode:?} {ops:?}"), || {
                let mut s = Suite::new().with_conflict_mode(mode.clone());
                let mut m: Vec<Ctx> = vec![];
                for (i, op) in ops.iter().enumerate() {
                    let (w, h) = (step(&mut m, op), real(&mut s, op));
                    if w != h {
                        return Some((format!("operation {i} {}", if w { "succeeds" } else { "is refused" }), "otherwise".into()));
                    }
                    if state(&s) != m {
                        return Some((format!("after operation {i}: {m:?}"), format!("{:?}", state(&s))));
                    }
                }
                for c in ctxs {
                    let w = m.iter().any(|x| x.name == c);
                    if s.get_context(c).map(|x| x.name == c) != if w { Some(true) } else { None } {
                        return Some((format!("context {c}: {w}"), format!("{:?}", s.get_context(c))));
                    }
                }
                tools(&m, &mode, &s)
            });
        }
    });
}
fn main() {
    let a = Args::get();
    let mut rep = Rep::new();
    if a.prop == "U01" {
        u01(&a, &mut rep)
    }
    rep.finish()
}
