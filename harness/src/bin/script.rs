//! Q01 activation scripts: reading the script by the rules of its shell gives the environment back
use rez_next_context::{ContextConfig, EnvironmentManager};
use rez_next_rex::{generate_shell_script, RexEnvironment, ShellType};
use rzharness::*;
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::process::{Command, Stdio};

#[derive(Clone, Debug, Default, PartialEq)]
struct Done {
    vars: BTreeMap<String, String>,
    aliases: BTreeMap<String, String>,
    cmds: Vec<String>,
    scripts: Vec<String>,
    late_then_early: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Sh {
    Bash,
    Fish,
    Ps,
    Cmd,
}
struct Cur {
    c: Vec<char>,
    i: usize,
}
impl Cur {
    fn eat(&mut self, t: &str) -> bool {
        let t: Vec<char> = t.chars().collect();
        let ok = self.c[self.i..].starts_with(&t);
        if ok {
            self.i += t.len();
        }
        ok
    }
    fn until(&mut self, stop: &[char]) -> String {
        let s = self.i;
        while self.i < self.c.len() && !stop.contains(&self.c[self.i]) {
            self.i += 1;
        }
        self.c[s..self.i].iter().collect()
    }
    /// quoted text up to and including the closing quote
    fn quoted(&mut self, sh: Sh, q: char, lit: bool) -> Result<String, String> {
        let mut out = String::new();
        loop {
            let x = *self.c.get(self.i).ok_or("quote never closed")?;
            let y = self.c.get(self.i + 1).copied();
            match (sh, q, x) {
                (Sh::Bash, '\'', '\'') => {
                    if self.eat("'\\''") {
                        out.push('\'');
                        continue;
                    }
                    self.i += 1;
                    return Ok(out);
                }
                (Sh::Ps, '\'', '\'') => {
                    if y == Some('\'') {
                        out.push('\'');
                        self.i += 2;
                        continue;
                    }
                    self.i += 1;
                    return Ok(out);
                }
                (Sh::Bash | Sh::Fish, '"', '\\') => {
                    let esc: &[char] = if sh == Sh::Bash { &['\\', '"', '$', '`', '\n'] } else { &['\\', '"', '$', '\n'] };
                    match y {
                        Some('\n') => self.i += 2,
                        Some(y) if esc.contains(&y) => {
                            out.push(y);
                            self.i += 2;
                        }
                        _ => {
                            out.push('\\');
                            self.i += 1;
                        }
                    }
                    continue;
                }
                (Sh::Ps, '"', '`') => {
                    let y = y.ok_or("quote never closed")?;
                    out.push(match y {
                        'n' => '\n',
                        't' => '\t',
                        'r' => '\r',
                        '0' => '\0',
                        'a' => '\x07',
                        'b' => '\x08',
                        'f' => '\x0c',
                        'v' => '\x0b',
                        y => y,
                    });
                    self.i += 2;
                    continue;
                }
                (_, '"', '"') => {
                    if sh == Sh::Ps && y == Some('"') {
                        out.push('"');
                        self.i += 2;
                        continue;
                    }
                    self.i += 1;
                    return Ok(out);
                }
                (_, '"', '$') if lit => return Err(format!("$ is expanded after {out:?}")),
                (Sh::Bash, '"', '`') if lit => return Err(format!("` is expanded after {out:?}")),
                _ => {}
            }
            out.push(x);
            self.i += 1;
        }
    }
}
fn read(sh: Sh, s: &str, lit: bool) -> Result<Done, String> {
    let mut d = Done::default();
    let mut late = false;
    let mut c = Cur { c: s.chars().collect(), i: 0 };
    let nl = if sh == Sh::Cmd && s.contains("\r\n") { "\r\n" } else { "\n" };
    while c.i < c.c.len() {
        if c.eat(nl) {
            continue;
        }
        let comment = if sh == Sh::Cmd { c.eat("REM ") || c.eat("@echo off") } else { c.eat("#") };
        if comment {
            c.until(&['\n', '\r']);
            continue;
        }
        let mut early = true;
        match sh {
            Sh::Bash => {
                if c.eat("export ") {
                    let k = c.until(&['=', '\n']);
                    if !c.eat("=\"") {
                        return Err(format!("export {k} without a quoted value"));
                    }
                    let v = c.quoted(sh, '"', lit)?;
                    d.vars.insert(k, v);
                } else if c.eat("alias ") {
                    let k = c.until(&['=', '\n']);
                    if !c.eat("='") {
                        return Err(format!("alias {k} without a quoted value"));
                    }
                    let v = c.quoted(sh, '\'', lit)?;
                    d.aliases.insert(k, v);
                } else if c.eat("source \"") {
                    early = false;
                    let v = c.quoted(sh, '"', lit)?;
                    d.scripts.push(v);
                } else {
                    early = false;
                    d.cmds.push(c.until(&['\n']));
                }
            }
            Sh::Fish => {
                if c.eat("set -gx ") || c.eat("set -x ") {
                    let k = c.until(&[' ', '\n']);
                    if !c.eat(" \"") {
                        return Err(format!("set {k} without a quoted value"));
                    }
                    let v = c.quoted(sh, '"', lit)?;
                    d.vars.insert(k, v);
                } else if c.eat("alias ") {
                    let k = c.until(&[' ', '\n']);
                    if !c.eat(" \"") {
                        return Err(format!("alias {k} without a quoted value"));
                    }
                    let v = c.quoted(sh, '"', lit)?;
                    d.aliases.insert(k, v);
                } else if c.eat("source \"") {
                    early = false;
                    let v = c.quoted(sh, '"', lit)?;
                    d.scripts.push(v);
                } else {
                    early = false;
                    d.cmds.push(c.until(&['\n']));
                }
            }
            Sh::Ps => {
                let braced = c.eat("${env:");
                if braced || c.eat("$env:") {
                    let k = c.until(if braced { &['}', '\n'] } else { &[' ', '\n'] });
                    if braced && !c.eat("}") {
                        return Err("brace never closed".into());
                    }
                    if !braced && !k.chars().all(|x| x.is_ascii_alphanumeric() || x == '_') {
                        return Err(format!("$env:{k} is not one name"));
                    }
                    let v = if c.eat(" = '") {
                        c.quoted(sh, '\'', lit)?
                    } else if c.eat(" = \"") {
                        c.quoted(sh, '"', lit)?
                    } else {
                        return Err(format!("{k} without a quoted value"));
                    };
                    d.vars.insert(k, v);
                } else if c.eat("Set-Alias -Name ") {
                    let k = c.until(&[' ', '\n']);
                    if !c.eat(" -Value \"") {
                        return Err(format!("alias {k} without a quoted value"));
                    }
                    let v = c.quoted(sh, '"', lit)?;
                    d.aliases.insert(k, v);
                } else if c.eat(". '") {
                    early = false;
                    let v = c.quoted(sh, '\'', lit)?;
                    d.scripts.push(v);
                } else {
                    early = false;
                    d.cmds.push(c.until(&['\n']));
                }
            }
            Sh::Cmd => {
                let l = c.until(&['\r', '\n']);
                if let Some(x) = l.strip_prefix("SET \"").and_then(|x| x.strip_suffix('"')).or_else(|| l.strip_prefix("set ")) {
                    let (k, v) = x.split_once('=').ok_or("no =")?;
                    d.vars.insert(k.into(), v.into());
                } else if let Some(x) = l.strip_prefix("DOSKEY ") {
                    let (k, v) = x.split_once('=').ok_or("no =")?;
                    d.aliases.insert(k.into(), v.into());
                } else if let Some(x) = l.strip_prefix("CALL \"").and_then(|x| x.strip_suffix('"')) {
                    early = false;
                    d.scripts.push(x.into());
                } else {
                    early = false;
                    d.cmds.push(l);
                }
            }
        }
        if early && late {
            d.late_then_early = true;
        }
        late |= !early;
        if c.i < c.c.len() && !c.eat(nl) {
            return Err(format!("text after the statement: {:?}", c.c[c.i..].iter().take(30).collect::<String>()));
        }
    }
    Ok(d)
}
/// what bash itself makes of the script: no program can be started (PATH leads nowhere), in a scratch directory
fn in_bash(script: &str, vars: &[String], dir: &str) -> Option<Vec<String>> {
    let mut t = String::from("PATH=/nonexistent; readonly PATH\n");
    t.push_str(script);
    t.push_str("\nprintf 'BEGIN\\0'\n");
    for v in vars {
        t.push_str(&format!("printf '%s\\0' \"${v}\"\n"));
    }
    let mut ch = Command::new("/bin/bash").args(["--norc", "--noprofile", "-s"]).env_clear().current_dir(dir).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    ch.stdin.take()?.write_all(t.as_bytes()).ok()?;
    let o = ch.wait_with_output().ok()?;
    let s = String::from_utf8_lossy(&o.stdout).to_string();
    let s = s.split_once("BEGIN\0")?.1;
    Some(s.split('\0').take(vars.len()).map(|x| x.to_string()).collect())
}
fn text(r: &mut Rng, alpha: &[&str], max: usize) -> String {
    (0..r.below(max)).map(|_| *r.pick(alpha)).collect()
}
fn diff(sh: Sh, script: &str, lit: bool, want: &Done) -> Option<(String, String)> {
    match read(sh, script, lit) {
        Ok(d) if d == *want => None,
        Ok(d) => Some((format!("{want:?}"), format!("{d:?} from script {script:?}"))),
        Err(e) => Some((format!("{want:?}"), format!("{e}; script {script:?}"))),
    }
}
fn q01(a: &Args, rep: &mut Rep) {
    let (seed, n, dir) = (a.seed, 2500 * a.scale(), a.scratch.clone());
    let nb = if n > 2500 { 150 } else { 40 };
    par(rep, 8, move |t, rep| {
        let mut r = Rng::new(seed * 5000 + t as u64);
        let alpha = ["\\", "\"", "'", "$", "`", "a", "n", " ", "\n", "#", "=", "{x}", "${V}", "/", ";", "''", "\\\\", "é", "\t", "%P%", "^", "}"];
        let plain = ["a", "b", " ", "\\", "'", "=", "/", "é", "%P%", "^", "&"];
        let keys = ["A", "PATH", "LD_LIBRARY_PATH", "a_b", "X1", "PYTHONPATH", "Z9"];
        let names = ["ll", "g", "maya-2024", "x.y", "Z"];
        for i in 0..n {
            let sh = *r.pick(&[Sh::Bash, Sh::Fish, Sh::Ps, Sh::Cmd]);
            let al: &[&str] = if sh == Sh::Cmd { &plain } else { &alpha };
            let mut w = Done::default();
            for _ in 0..r.below(5) {
                let k = if sh == Sh::Ps && r.chance(1, 5) { "ProgramFiles(x86)" } else { *r.pick(&keys) };
                w.vars.insert(k.to_string(), text(&mut r, al, 9));
            }
            for _ in 0..r.below(4) {
                w.aliases.insert(r.pick(&names).to_string(), text(&mut r, al, 9));
            }
            for _ in 0..r.below(3) {
                w.cmds.push(format!("echo {}", text(&mut r, &["a", "$A", "\"q\"", "'", "\\", "`x`", " # no"], 5)).trim_end().to_string());
            }
            for _ in 0..r.below(3) {
                w.scripts.push(format!("/s/{}", text(&mut r, al, 6)));
            }
            let mut e = RexEnvironment::new();
            e.vars = w.vars.clone().into_iter().collect::<HashMap<_, _>>();
            e.aliases = w.aliases.clone().into_iter().collect::<HashMap<_, _>>();
            e.startup_commands = w.cmds.clone();
            e.sourced_scripts = w.scripts.clone();
            for _ in 0..r.below(3) {
                e.info_messages.push(text(&mut r, &alpha, 8));
            }
            let st = match sh {
                Sh::Bash => *r.pick(&[&ShellType::Bash, &ShellType::Zsh]),
                Sh::Fish => &ShellType::Fish,
                Sh::Ps => &ShellType::PowerShell,
                Sh::Cmd => &ShellType::Cmd,
            };
            rep.check("activation scripts", || format!("{st:?}: {w:?}, messages {:?}", e.info_messages), || diff(sh, &generate_shell_script(&e, st), false, &w));
            // context scripts: variables only, nothing expanded
            use rez_next_context::ShellType as CS;
            let cst = match sh {
                Sh::Bash => *r.pick(&[&CS::Bash, &CS::Zsh]),
                Sh::Fish => &CS::Fish,
                Sh::Ps => &CS::PowerShell,
                Sh::Cmd => &CS::Cmd,
            };
            let wc = Done { vars: w.vars.iter().filter(|(k, _)| !k.contains('(')).map(|(k, v)| (k.clone(), v.clone())).collect(), ..Done::default() };
            let vars: HashMap<String, String> = wc.vars.clone().into_iter().collect();
            let make = || EnvironmentManager::new(ContextConfig { shell_type: cst.clone(), ..ContextConfig::default() }).generate_shell_script(&vars);
            rep.check("context scripts", || format!("{cst:?}: {vars:?}"), || match make() {
                Ok(s) => diff(sh, &s, true, &wc),
                Err(e) => Some(("a script".into(), format!("{e:?}"))),
            });
            // the same through bash itself
            if i % (n / nb) == 0 {
                let safe = ["\\", "\"", "'", "a", " ", "#", "=", "n", "\\\\"];
                let mut w: BTreeMap<String, String> = BTreeMap::new();
                for k in ["A", "B_1", "CC"] {
                    w.insert(k.to_string(), text(&mut r, &safe, 9));
                }
                let mut e = RexEnvironment::new();
                e.vars = w.clone().into_iter().collect();
                let s = generate_shell_script(&e, &ShellType::Bash);
                let ks: Vec<String> = w.keys().cloned().collect();
                let vs: Vec<String> = w.values().cloned().collect();
                rep.check("bash reads back", || format!("{w:?}"), || in_bash(&s, &ks, &dir).and_then(|h| eq(vs.clone(), h)));
                let dollar = ["\\", "\"", "'", "a", " ", "$", "`", "n", "$a", "$$"];
                for v in w.values_mut() {
                    *v = text(&mut r, &dollar, 9);
                }
                let vars: HashMap<String, String> = w.clone().into_iter().collect();
                let vs: Vec<String> = w.values().cloned().collect();
                let s = EnvironmentManager::new(ContextConfig { shell_type: CS::Bash, ..ContextConfig::default() }).generate_shell_script(&vars).unwrap_or_default();
                rep.check("bash reads back a context", || format!("{w:?}"), || in_bash(&s, &ks, &dir).and_then(|h| eq(vs.clone(), h)));
            }
        }
    });
}
fn main() {
    let a = Args::get();
    let mut rep = Rep::new();
    if a.prop == "Q01" {
        q01(&a, &mut rep)
    }
    rep.finish()
}
