//! Shared parts of the executable contracts: deterministic randomness, reporting.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}

pub struct Rep {
    pub counts: BTreeMap<String, u64>,
    pub fails: Vec<String>,
    per: BTreeMap<String, usize>,
}
impl Rep {
    pub fn new() -> Self {
        Rep { counts: BTreeMap::new(), fails: vec![], per: BTreeMap::new() }
    }
    pub fn case(&mut self, part: &str) {
        *self.counts.entry(part.to_string()).or_insert(0) += 1;
    }
    pub fn fail(&mut self, part: &str, input: String, expected: String, actual: String) {
        self.fail_kf(part, input, expected, actual, None)
    }
    pub fn fail_kf(&mut self, part: &str, input: String, expected: String, actual: String, finding: Option<&str>) {
        let key = format!("{part}/{}", finding.unwrap_or(""));
        let n = self.per.entry(key).or_insert(0);
        *n += 1;
        if *n > 5 {
            return;
        }
        let mut m = serde_json::Map::new();
        m.insert("contract".into(), part.into());
        m.insert("input".into(), input.into());
        m.insert("expected".into(), expected.into());
        m.insert("actual".into(), actual.into());
        if let Some(f) = finding {
            m.insert("finding".into(), f.into());
        }
        self.fails.push(serde_json::Value::Object(m).to_string());
    }
    /// one case: `f` yields None when the contract held, Some((expected, actual)) otherwise; a panic is a failure
    pub fn check(&mut self, part: &str, input: impl Fn() -> String, f: impl FnOnce() -> Option<(String, String)>) {
        self.check_kf(part, input, None, f)
    }
    pub fn check_kf(&mut self, part: &str, input: impl Fn() -> String, finding: Option<&str>, f: impl FnOnce() -> Option<(String, String)>) {
        self.case(part);
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(None) => {}
            Ok(Some((e, a))) => self.fail_kf(part, input(), e, a, finding),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.fail_kf(part, input(), "no panic".into(), format!("panic: {m}"), finding)
            }
        }
    }
    pub fn merge(&mut self, o: Rep) {
        for (k, n) in o.counts {
            *self.counts.entry(k).or_insert(0) += n;
        }
        for (k, n) in o.per {
            *self.per.entry(k).or_insert(0) += n;
        }
        if self.fails.len() < 40 {
            self.fails.extend(o.fails);
        }
    }
    pub fn finish(self) -> ! {
        for (k, n) in &self.counts {
            println!("CASES {k} {n}");
        }
        for f in &self.fails {
            println!("FAIL {f}");
        }
        std::process::exit(if self.fails.is_empty() { 0 } else { 1 })
    }
}

/// run `f(k, report)` for k in 0..n on n threads, merge the reports
pub fn par(rep: &mut Rep, n: usize, f: impl Fn(usize, &mut Rep) + Send + Sync + 'static) {
    let f = std::sync::Arc::new(f);
    let hs: Vec<_> = (0..n)
        .map(|k| {
            let f = f.clone();
            std::thread::spawn(move || {
                let mut r = Rep::new();
                f(k, &mut r);
                r
            })
        })
        .collect();
    for h in hs {
        match h.join() {
            Ok(r) => rep.merge(r),
            Err(_) => rep.fail("harness thread", String::new(), "no panic".into(), "panic".into()),
        }
    }
}

pub fn eq<T: PartialEq + std::fmt::Debug>(expected: T, actual: T) -> Option<(String, String)> {
    if expected == actual { None } else { Some((format!("{expected:?}"), format!("{actual:?}"))) }
}

pub struct Args {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub scratch: String,
}
impl Args {
    pub fn get() -> Self {
        std::panic::set_hook(Box::new(|_| {}));
        let a: Vec<String> = std::env::args().collect();
        Args {
            prop: a.get(1).cloned().unwrap_or_default(),
            tier: a.get(2).cloned().unwrap_or("quick".into()),
            seed: a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1),
            scratch: a.get(4).cloned().unwrap_or("/tmp/rzh".into()),
        }
    }
    /// scale factor of random exploration
    pub fn scale(&self) -> usize {
        match self.tier.as_str() {
            "thorough" => 20,
            "deep" => 6,
            _ => 1,
        }
    }
}

/// The version order of the specification, written independently of the code.
pub mod vspec {
    use std::cmp::Ordering;
    pub fn tokens(s: &str) -> Vec<String> {
        let mut out = vec![];
        let mut cur = String::new();
        for c in s.chars() {
            if c.is_ascii_alphanumeric() || c == '_' {
                cur.push(c);
            } else if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
        }
        if !cur.is_empty() {
            out.push(cur);
        }
        out
    }
    pub fn segs(t: &str) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        for c in t.chars() {
            match out.last_mut() {
                Some(l) if l.chars().next().unwrap().is_ascii_digit() == c.is_ascii_digit() => l.push(c),
                _ => out.push(c.to_string()),
            }
        }
        out
    }
    pub fn strip0(d: &str) -> &str {
        d.trim_start_matches('0')
    }
    pub fn seg_cmp(a: &str, b: &str) -> Ordering {
        let (na, nb) = (a.as_bytes()[0].is_ascii_digit(), b.as_bytes()[0].is_ascii_digit());
        match (na, nb) {
            (true, true) => {
                let (x, y) = (strip0(a), strip0(b));
                x.len().cmp(&y.len()).then(x.cmp(y))
            }
            (true, false) => Ordering::Greater,
            (false, true) => Ordering::Less,
            _ => a.cmp(b),
        }
    }
    pub fn tok_cmp(a: &str, b: &str) -> Ordering {
        let (x, y) = (segs(a), segs(b));
        for i in 0..x.len().min(y.len()) {
            let c = seg_cmp(&x[i], &y[i]);
            if c != Ordering::Equal {
                return c;
            }
        }
        x.len().cmp(&y.len())
    }
    /// order of version texts
    pub fn cmp(a: &str, b: &str) -> Ordering {
        let rank = |s: &str| -> i32 {
            let t = s.trim();
            if t == "inf" { 2 } else if t.is_empty() || t == "epsilon" { 0 } else { 1 }
        };
        let (ra, rb) = (rank(a), rank(b));
        if ra != 1 || rb != 1 {
            return ra.cmp(&rb);
        }
        let (x, y) = (tokens(a), tokens(b));
        for i in 0..x.len().max(y.len()) {
            let p = x.get(i).map(|s| s.as_str()).unwrap_or("0");
            let q = y.get(i).map(|s| s.as_str()).unwrap_or("0");
            let c = tok_cmp(p, q);
            if c != Ordering::Equal {
                return c;
            }
        }
        Ordering::Equal
    }
    pub fn has_prefix(v: &str, p: &str) -> bool {
        let norm = |s: &str| -> Vec<String> {
            let t = s.trim();
            if t == "inf" || t == "epsilon" { vec![] } else { tokens(t) }
        };
        let (x, y) = (norm(v), norm(p));
        x.len() >= y.len() && y.iter().zip(&x).all(|(q, t)| tok_cmp(q, t) == Ordering::Equal)
    }
}

/// Code that deletes files is exercised as an unprivileged user whose only files are a scratch directory:
/// the program starts a copy of itself as that user and hands on what it prints. Returns in the copy only
/// (or when the program is not run by root to begin with).
pub fn unprivileged() {
    use std::os::unix::fs::{chown, MetadataExt, PermissionsExt};
    use std::os::unix::process::CommandExt;
    let root = std::fs::metadata("/proc/self").map(|m| m.uid() == 0).unwrap_or(false);
    if !root {
        return;
    }
    let user = 65534;
    let dir = std::env::temp_dir().join(format!("rz-user-{}", std::process::id()));
    let files = dir.join("files");
    let exe = dir.join("exe");
    let ready = (|| -> std::io::Result<()> {
        std::fs::create_dir_all(&files)?;
        std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o755))?;
        std::fs::copy(std::env::current_exe()?, &exe)?;
        std::fs::set_permissions(&exe, std::fs::Permissions::from_mode(0o755))?;
        chown(&files, Some(user), Some(user))
    })();
    let code = match ready {
        Err(e) => {
            eprintln!("no scratch directory for the unprivileged user: {e}");
            3
        }
        Ok(()) => {
            let mut args: Vec<String> = std::env::args().skip(1).collect();
            if args.len() >= 4 {
                args[3] = files.to_string_lossy().to_string();
            }
            match std::process::Command::new(&exe).args(&args).env("TMPDIR", &files).env("HOME", &files).current_dir(&files).uid(user).gid(user).status() {
                Ok(s) => s.code().unwrap_or(3),
                Err(e) => {
                    eprintln!("cannot start as an unprivileged user: {e}");
                    3
                }
            }
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(code)
}
