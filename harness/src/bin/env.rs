//! E01 rex actions, E02 the environment of a context, E03 rex references
use rez_next_context::{ContextConfig, EnvironmentManager, PathStrategy};
use rez_next_package::Package;
use rez_next_rex::{RexAction, RexActionType as T, RexEnvironment, RexExecutor};
use rez_next_version::Version;
use rzharness::*;
use std::collections::{BTreeMap, HashMap};

type Vars = BTreeMap<String, String>;
#[derive(Clone, Debug, Default, PartialEq)]
struct Env {
    vars: Vars,
    aliases: Vars,
    cmds: Vec<String>,
    scripts: Vec<String>,
    infos: Vec<String>,
    stopped: bool,
    stop: Option<String>,
}
fn sorted(m: &HashMap<String, String>) -> Vars {
    m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}
fn seen(e: &RexEnvironment) -> Env {
    Env {
        vars: sorted(&e.vars),
        aliases: sorted(&e.aliases),
        cmds: e.startup_commands.clone(),
        scripts: e.sourced_scripts.clone(),
        infos: e.info_messages.clone(),
        stopped: e.stopped,
        stop: e.stop_message.clone(),
    }
}
fn joined(first: &str, sep: &str, last: &str) -> String {
    [first, sep, last].concat()
}
/// one action
fn step(e: &mut Env, a: &T) {
    let cur = |e: &Env, n: &String| e.vars.get(n).cloned().unwrap_or_default();
    match a {
        T::Setenv { name, value } => drop(e.vars.insert(name.clone(), value.clone())),
        T::Unsetenv { name } | T::Resetenv { name } => drop(e.vars.remove(name)),
        T::PrependPath { name, value, separator } => {
            let c = cur(e, name);
            let v = if c.is_empty() { value.clone() } else { joined(value, separator.as_deref().unwrap_or(":"), &c) };
            e.vars.insert(name.clone(), v);
        }
        T::AppendPath { name, value, separator } => {
            let c = cur(e, name);
            let v = if c.is_empty() { value.clone() } else { joined(&c, separator.as_deref().unwrap_or(":"), value) };
            e.vars.insert(name.clone(), v);
        }
        T::SetenvIfEmpty { name, value } => {
            e.vars.entry(name.clone()).or_insert(value.clone());
        }
        T::Alias { name, value } => drop(e.aliases.insert(name.clone(), value.clone())),
        T::Command { cmd } => e.cmds.push(cmd.clone()),
        T::Source { path } => e.scripts.push(path.clone()),
        T::Comment { .. } => {}
        T::Info { message } => e.infos.push(message.clone()),
        T::Error { message } => e.infos.push(format!("[error] {message}")),
        T::Stop { message } => {
            e.stopped = true;
            e.stop = message.clone();
        }
    }
}
fn run(e: &mut Env, acts: &[T]) {
    for a in acts {
        step(e, a);
        if matches!(a, T::Stop { .. }) {
            return;
        }
    }
}
const NAMES: &[&str] = &["A", "B", "PATH", "X_ROOT", "PYTHONPATH"];
const VALUES: &[&str] = &["", "v", "/bin", "/usr/bin", "a:b", "a b", "é/ü", ":", "/bin:/bin", "1.0", ";"];
const SEPS: &[Option<&str>] = &[None, None, None, Some(":"), Some(";"), Some(" "), Some(""), Some("::")];
fn name(r: &mut Rng) -> String {
    r.pick(NAMES).to_string()
}
fn value(r: &mut Rng) -> String {
    r.pick(VALUES).to_string()
}
fn gen_action(r: &mut Rng) -> T {
    let sep = |r: &mut Rng| r.pick(SEPS).map(|s| s.to_string());
    match r.below(24) {
        0..=3 => T::Setenv { name: name(r), value: value(r) },
        4 | 5 => T::Unsetenv { name: name(r) },
        6..=9 => T::PrependPath { name: name(r), value: value(r), separator: sep(r) },
        10..=13 => T::AppendPath { name: name(r), value: value(r), separator: sep(r) },
        14 | 15 => T::SetenvIfEmpty { name: name(r), value: value(r) },
        16 => T::Alias { name: r.pick(&["ll", "la"]).to_string(), value: value(r) },
        17 => T::Command { cmd: value(r) },
        18 => T::Source { path: value(r) },
        19 => T::Comment { text: value(r) },
        20 => T::Resetenv { name: name(r) },
        21 => T::Info { message: value(r) },
        22 => T::Error { message: value(r) },
        _ => {
            if r.chance(1, 3) {
                T::Stop { message: if r.chance(1, 2) { Some(value(r)) } else { None } }
            } else {
                T::Setenv { name: name(r), value: value(r) }
            }
        }
    }
}
fn acts(l: &[T]) -> Vec<RexAction> {
    l.iter().map(|t| RexAction { action_type: t.clone(), source_package: None }).collect()
}
fn eqd<X: PartialEq + std::fmt::Debug>(want: X, got: X) -> Option<(String, String)> {
    if want == got { None } else { Some((format!("{want:?}"), format!("{got:?}"))) }
}

fn e01(a: &Args) {
    let mut rep = Rep::new();
    let mut r = Rng::new(a.seed);
    for i in 0..6000 * a.scale() {
        let l: Vec<T> = (0..r.below(if i % 4 == 0 { 20 } else { 6 })).map(|_| gen_action(&mut r)).collect();
        let cut = r.below(l.len() + 1);
        rep.check("actions applied in order", || format!("{l:?}"), || {
            let mut e = RexEnvironment::new();
            let mut m = Env::default();
            e.apply(&acts(&l));
            run(&mut m, &l);
            eqd(m, seen(&e))
        });
        rep.check("actions applied in two calls", || format!("{:?} then {:?}", &l[..cut], &l[cut..]), || {
            let mut e = RexEnvironment::new();
            let mut m = Env::default();
            for part in [&l[..cut], &l[cut..]] {
                e.apply(&acts(part));
                run(&mut m, part);
            }
            eqd(m, seen(&e))
        });
        let base: HashMap<String, String> = (0..r.below(4)).map(|_| (name(&mut r), value(&mut r))).collect();
        rep.check("base merged under", || format!("{l:?} over {base:?}"), || {
            let mut e = RexEnvironment::new();
            let mut m = Env::default();
            e.apply(&acts(&l));
            run(&mut m, &l);
            e.merge_with_base(&base);
            for (k, v) in &base {
                m.vars.entry(k.clone()).or_insert(v.clone());
            }
            eqd(m, seen(&e))
        });
    }
    rep.finish()
}

/// how an action is written in a package's commands
fn line(t: &T) -> String {
    match t {
        T::Setenv { name, value } => format!("env.setenv(\"{name}\", \"{value}\")"),
        T::Unsetenv { name } => format!("env.unsetenv(\"{name}\")"),
        T::PrependPath { name, value, .. } => format!("env.prepend_path(\"{name}\", \"{value}\")"),
        T::AppendPath { name, value, .. } => format!("env.append_path(\"{name}\", \"{value}\")"),
        T::SetenvIfEmpty { name, value } => format!("env.setenv_if_empty(\"{name}\", \"{value}\")"),
        T::Alias { name, value } => format!("alias(\"{name}\", \"{value}\")"),
        T::Command { cmd } => format!("command(\"{cmd}\")"),
        T::Source { path } => format!("source(\"{path}\")"),
        T::Comment { text } => format!("comment(\"{text}\")"),
        T::Resetenv { name } => format!("env.resetenv(\"{name}\")"),
        T::Info { message } => format!("info(\"{message}\")"),
        T::Error { message } => format!("error(\"{message}\")"),
        T::Stop { message: Some(m) } => format!("stop(\"{m}\")"),
        T::Stop { message: None } => "stop()".to_string(),
    }
}
fn written(t: T) -> T {
    match t {
        T::PrependPath { name, value, .. } => T::PrependPath { name, value, separator: None },
        T::AppendPath { name, value, .. } => T::AppendPath { name, value, separator: None },
        t => t,
    }
}
/// references `{name}` and `$NAME`, longest first, left to right, once
fn expand(s: &str, vars: &Vars) -> String {
    let c: Vec<char> = s.chars().collect();
    let (mut out, mut i) = (String::new(), 0);
    while i < c.len() {
        let mut best: Option<(usize, &str)> = None;
        for (k, v) in vars {
            let braced: Vec<char> = format!("{{{k}}}").chars().collect();
            let dollar: Vec<char> = format!("${}", k.to_uppercase()).chars().collect();
            let word = c.get(i + dollar.len()).is_some_and(|x| x.is_alphanumeric() || *x == '_');
            let n = if c[i..].starts_with(&braced) { braced.len() } else if c[i..].starts_with(&dollar) && !word { dollar.len() } else { continue };
            if best.is_none_or(|b| n > b.0) {
                best = Some((n, v));
            }
        }
        match best {
            Some((n, v)) => {
                out.push_str(v);
                i += n;
            }
            None => {
                out.push(c[i]);
                i += 1;
            }
        }
    }
    out
}
fn expanded(t: &T, vars: &Vars) -> T {
    let x = |s: &String| expand(s, vars);
    let mut t = t.clone();
    match &mut t {
        T::Setenv { value, .. } | T::PrependPath { value, .. } | T::AppendPath { value, .. } | T::SetenvIfEmpty { value, .. } | T::Alias { value, .. } => *value = x(value),
        T::Command { cmd } => *cmd = x(cmd),
        T::Source { path } => *path = x(path),
        T::Info { message } | T::Error { message } | T::Stop { message: Some(message) } => *message = x(message),
        _ => {}
    }
    t
}
fn package_vars(vars: &mut Vars, name: &str, root: Option<&str>, version: Option<&str>) {
    for (k, v) in [("root", root), ("version", version), ("name", Some(name))] {
        if let Some(v) = v {
            vars.insert(k.into(), v.into());
            vars.insert(format!("this.{k}"), v.into());
        }
    }
    if let Some(v) = version {
        let parts: Vec<&str> = v.split('.').collect();
        for (i, k) in ["major", "minor", "patch"].iter().enumerate() {
            let k = format!("this.version.{k}");
            match parts.get(i) {
                Some(p) => drop(vars.insert(k, p.to_string())),
                None => drop(vars.remove(&k)),
            }
        }
    }
}
const BITS: &[&str] = &[
    "{root}", "{version}", "{name}", "{this.root}", "{this.version}", "{this.version.major}", "{this.version.minor}", "{this.version.patch}", "{this.name}", "$ROOT", "$VERSION", "$NAME", "$NAMES",
    "$ROOT_DIR", "$APP", "$APP_HOME", "{app}", "{app_home}", "{App}", "{unknown}", "$UNKNOWN", "{", "}", "$", "{{root}}", "/bin", "x", "", ".", "é", "_", "$THIS.ROOT", "$THIS.VERSION", "{root", "name}", "${ROOT}", "$$ROOT", "$root",
];
fn texty(r: &mut Rng) -> String {
    let n = 1 + r.below(4);
    (0..n).map(|_| *r.pick(BITS)).collect()
}
fn with_text(t: T, r: &mut Rng) -> T {
    let mut t = t;
    match &mut t {
        T::Setenv { value, .. } | T::PrependPath { value, .. } | T::AppendPath { value, .. } | T::SetenvIfEmpty { value, .. } | T::Alias { value, .. } => *value = texty(r),
        T::Command { cmd } => *cmd = texty(r),
        T::Source { path } => *path = texty(r),
        T::Comment { text } => *text = texty(r),
        T::Info { message } | T::Error { message } | T::Stop { message: Some(message) } => *message = texty(r),
        _ => {}
    }
    t
}
const ROOTS: &[&str] = &["/p/a", "/p/{name}", "/p/$NAME", "/p/$VERSION/{app}", "C:\\p", "/p a/b"];
const PNAMES: &[&str] = &["maya", "py", "{root}", "$ROOT", "my_tool"];
const PVERS: &[&str] = &["1.2.3", "1.2", "1", "2.0.0.1", "1.2-beta", "3.rc1"];
fn e03(a: &Args) {
    let mut rep = Rep::new();
    let mut r = Rng::new(a.seed);
    for _ in 0..2500 * a.scale() {
        let mut own = Vars::new();
        for k in ["app", "app_home", "root", "ROOTY", "App"] {
            if r.chance(1, 3) {
                own.insert(k.to_string(), r.pick(&["V", "/h/$APP", "{app_home}", "{root}", ""]).to_string());
            }
        }
        if own.contains_key("app") {
            own.remove("App"); // two names for $APP
        }
        type Call = (String, Option<&'static str>, Option<&'static str>, Vec<T>);
        let calls: Vec<Call> = (0..1 + r.below(3))
            .map(|_| {
                let l: Vec<T> = (0..1 + r.below(5)).map(|_| gen_action(&mut r)).collect();
                let l = l.into_iter().map(|t| with_text(written(t), &mut r)).collect();
                let root = if r.chance(3, 4) { Some(*r.pick(ROOTS)) } else { None };
                let ver = if r.chance(3, 4) { Some(*r.pick(PVERS)) } else { None };
                (r.pick(PNAMES).to_string(), root, ver, l)
            })
            .collect();
        rep.check("references replaced once, by this package's values", || format!("variables {own:?}, calls {calls:?}"), || {
            let mut x = RexExecutor::new();
            let mut vars = own.clone();
            for (k, v) in &own {
                x.set_context_var(k.clone(), v.clone());
            }
            let mut all: Vec<T> = vec![];
            for (n, root, ver, l) in &calls {
                let text: Vec<String> = l.iter().map(line).collect();
                let env = match x.execute_commands(&text.join("\n"), n, *root, *ver) {
                    Ok(e) => e,
                    Err(e) => return Some(("commands accepted".into(), format!("{e:?} for {text:?}"))),
                };
                package_vars(&mut vars, n, *root, *ver);
                all.extend(l.iter().map(|t| expanded(t, &vars)));
                let got: Vec<String> = x.get_actions().iter().map(|q| format!("{:?}", q.action_type)).collect();
                let want: Vec<String> = all.iter().map(|q| format!("{q:?}")).collect();
                if got != want {
                    return Some((format!("{want:?}"), format!("{got:?}")));
                }
                let mut m = Env::default();
                run(&mut m, &all);
                if let Some(d) = eqd(m, seen(&env)) {
                    return Some(d);
                }
            }
            None
        });
    }
    rep.finish()
}

fn e02(a: &Args) {
    let mut rep = Rep::new();
    let mut r = Rng::new(a.seed);
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    for _ in 0..2500 * a.scale() {
        let base: Vars = (0..r.below(4)).map(|_| (r.pick(&["PATH", "A", "B", "Path", "MAYA_ROOT", "HOME"]).to_string(), value(&mut r))).collect();
        let extra: Vars = (0..r.below(3)).map(|_| (name(&mut r), value(&mut r))).collect();
        let unset: Vec<String> = (0..r.below(2)).map(|_| name(&mut r)).collect();
        let strat = r.pick(&[PathStrategy::Prepend, PathStrategy::Append, PathStrategy::Replace, PathStrategy::NoModify]).clone();
        let names = ["maya", "Py", "my_tool"];
        type Pk = (String, Option<&'static str>, Option<&'static str>, [Option<Vec<T>>; 3], Vec<&'static str>);
        let pks: Vec<Pk> = (0..r.below(4))
            .map(|i| {
                let mut ph = || if r.chance(1, 3) { None } else {
                    Some((0..r.below(4)).map(|_| { let t = written(gen_action(&mut r)); if r.chance(1, 3) { with_text(t, &mut r) } else { t } }).collect::<Vec<T>>())
                };
                let phases = [ph(), ph(), ph()];
                let tools = (0..r.below(3)).map(|_| *r.pick(&["mayapy", "py", "tool"])).collect();
                let root = if r.chance(1, 2) { Some(*r.pick(&["/nowhere/a", "/nowhere/b b", "/nowhere/{name}"])) } else { None };
                (names[i].to_string(), if r.chance(3, 4) { Some(*r.pick(PVERS)) } else { None }, root, phases, tools)
            })
            .collect();
        rep.check("environment of a context", || format!("base {base:?}, packages (name, version, root, phases, tools) {pks:?}, extra {extra:?}, unset {unset:?}, {strat:?}"), || {
            let cfg = ContextConfig { additional_env_vars: extra.clone().into_iter().collect(), unset_vars: unset.clone(), path_strategy: strat.clone(), ..ContextConfig::default() };
            let packages: Vec<Package> = pks
                .iter()
                .map(|(n, v, root, ph, tools)| {
                    let mut p = Package::new(n.clone());
                    p.version = v.map(|v| Version::parse(v).unwrap());
                    p.filepath = root.map(|x| format!("{x}/package.py"));
                    let text = |l: &Option<Vec<T>>| l.as_ref().map(|l| l.iter().map(line).collect::<Vec<_>>().join("\n"));
                    p.pre_commands = text(&ph[0]);
                    p.commands = text(&ph[1]);
                    p.post_commands = text(&ph[2]);
                    p.tools = tools.iter().map(|t| t.to_string()).collect();
                    p
                })
                .collect();
            let man = EnvironmentManager::with_base_environment(cfg, base.clone().into_iter().collect());
            let got = match rt.block_on(man.generate_rex_environment(&packages)) {
                Ok(e) => seen(&e),
                Err(e) => return Some(("an environment".into(), format!("{e:?}"))),
            };
            let mut m = Env { vars: base.clone(), ..Env::default() };
            let root_of = |p: &Pk| p.2.map(|x| x.to_string()).unwrap_or(format!("/packages/{}", p.0));
            for p in &pks {
                m.vars.insert(format!("{}_ROOT", p.0.to_uppercase()), root_of(p));
                if let Some(v) = p.1 {
                    m.vars.insert(format!("{}_VERSION", p.0.to_uppercase()), v.to_string());
                }
            }
            'out: for k in 0..3 {
                for p in &pks {
                    let mut vars = Vars::new();
                    package_vars(&mut vars, &p.0, Some(&root_of(p)), p.1);
                    for t in p.3[k].iter().flatten() {
                        step(&mut m, &expanded(t, &vars));
                        if m.stopped {
                            break 'out;
                        }
                    }
                }
            }
            m.vars.extend(extra.clone());
            let mut tp: Vec<String> = vec![];
            for p in pks.iter().filter(|p| !p.4.is_empty()) {
                let d = format!("{}/bin", root_of(p));
                if !tp.contains(&d) {
                    tp.push(d);
                }
            }
            if strat != PathStrategy::NoModify && !tp.is_empty() {
                let cur = m.vars.get("PATH").cloned().unwrap_or_default();
                let seg = tp.join(":");
                let v = match strat {
                    _ if cur.is_empty() => seg,
                    PathStrategy::Prepend => joined(&seg, ":", &cur),
                    PathStrategy::Append => joined(&cur, ":", &seg),
                    _ => seg,
                };
                m.vars.insert("PATH".into(), v);
            }
            for u in &unset {
                m.vars.remove(u);
            }
            // duplicate entries of the search path go, the first stays
            let key = if m.vars.contains_key("PATH") { "PATH" } else { "Path" };
            if let Some(p) = m.vars.get_mut(key) {
                let mut l: Vec<&str> = vec![];
                for e in p.split(':') {
                    if !l.contains(&e) {
                        l.push(e);
                    }
                }
                *p = l.join(":");
            }
            if let Some(d) = eqd(m.clone(), got.clone()) {
                return Some(d);
            }
            let d = man.get_env_diff(&m.vars.clone().into_iter().collect());
            let mut removed = d.removed.clone();
            removed.sort();
            let want = (
                m.vars.iter().filter(|(k, _)| !base.contains_key(*k)).map(|(k, v)| (k.clone(), v.clone())).collect::<Vars>(),
                m.vars.iter().filter(|(k, v)| base.get(*k).is_some_and(|b| b != *v)).map(|(k, v)| (k.clone(), (base[k].clone(), v.clone()))).collect::<BTreeMap<_, _>>(),
                base.keys().filter(|k| !m.vars.contains_key(*k)).cloned().collect::<Vec<_>>(),
            );
            eqd(want, (sorted(&d.added), d.modified.into_iter().collect::<BTreeMap<_, _>>(), removed))
        });
    }
    rep.finish()
}

fn main() {
    let a = Args::get();
    match a.prop.as_str() {
        "E01" => e01(&a),
        "E02" => e02(&a),
        "E03" => e03(&a),
        _ => std::process::exit(3),
    }
}
