//! C17: every feature configuration and build mode gives the same geometry.
use super::Plan;
use crate::engine::*;
use crate::scalar::Sc;
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

/// name, features of the probe, target directory, profile (directory, flag), thorough only
struct Config {
    name: &'static str,
    features: &'static str,
    dir: &'static str,
    profile: &'static str,
    thorough: bool,
}
const fn c(name: &'static str, features: &'static str, dir: &'static str, profile: &'static str, thorough: bool) -> Config {
    Config { name, features, dir, profile, thorough }
}
/// The first is the reference. Those that share a directory are built one after another.
const CONFIGS: [Config; 15] = [
    c("std, release", "std", "std", "release", false),
    c("default features, release", "default-features", "std", "release", false),
    c("std, debug", "std", "std", "debug", false),
    c("default features, debug", "default-features", "std", "debug", false),
    c("no features, debug", "", "none", "debug", false),
    c("no features, release", "", "none", "release", false),
    c("alloc, debug", "alloc", "alloc", "debug", false),
    c("alloc, release", "alloc", "alloc", "release", false),
    c("serde-serialize without std, debug", "serde", "serde", "debug", false),
    c("serde-serialize without std, release", "serde", "serde", "release", false),
    c("std + serde-serialize, debug", "serde,std", "serde-std", "debug", false),
    c("std + serde-serialize, release", "serde,std", "serde-std", "release", false),
    c("no features, optimised for size with LTO", "", "none", "small", true),
    c("alloc, optimised for size with LTO", "alloc", "alloc", "small", true),
    c("std, optimised for size with LTO", "std", "std", "small", true),
];
enum Built {
    Bin(Vec<u8>),
    /// the client program does not compile
    Rejected(String),
}
fn build(c: &Config) -> Built {
    let v = verif_dir();
    let dir = format!("{v}/target/probe/{}-{}", c.dir, c.profile);
    let mut cmd = Command::new("cargo");
    cmd.current_dir(format!("{v}/probe")).args(["build", "--offline", "--no-default-features", "--features", c.features, "--target-dir", &dir]);
    match c.profile {
        "debug" => {}
        "release" => {
            cmd.arg("--release");
        }
        p => {
            cmd.args(["--profile", p]);
        }
    }
    let o = cmd.env_remove("RUSTFLAGS").env_remove("CARGO_TARGET_DIR").output().expect("cargo");
    if o.status.success() {
        return Built::Bin(std::fs::read(format!("{dir}/{}/probe", c.profile)).expect("probe"));
    }
    let e = String::from_utf8_lossy(&o.stderr).to_string();
    if !e.contains("could not compile") {
        eprintln!("{e}");
        eprintln!("cargo could not build the probe");
        std::process::exit(2);
    }
    let i = e.find("error").unwrap_or(0);
    Built::Rejected(e[i..].chars().take(600).collect())
}
pub fn build_all(thorough: bool) -> Vec<(usize, Result<Vec<u8>, String>)> {
    let mut lanes: Vec<Vec<usize>> = vec![];
    for (i, c) in CONFIGS.iter().enumerate() {
        if c.thorough && !thorough {
            continue;
        }
        match lanes.iter_mut().find(|l| CONFIGS[l[0]].dir == c.dir && CONFIGS[l[0]].profile == c.profile) {
            Some(l) => l.push(i),
            None => lanes.push(vec![i]),
        }
    }
    let hs: Vec<_> = lanes.into_iter().map(|l| std::thread::spawn(move || l.into_iter().map(|i| (i, build(&CONFIGS[i]))).collect::<Vec<_>>())).collect();
    let mut v: Vec<_> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
    v.sort_by_key(|x| x.0);
    v.into_iter()
        .map(|(i, b)| {
            (
                i,
                match b {
                    Built::Bin(b) => Ok(b),
                    Built::Rejected(e) => Err(e),
                },
            )
        })
        .collect()
}
/// The harness itself, built on the library in another configuration: name, features.
const ELSEWHERE: [(&str, &str); 2] = [("without std and alloc, with debug assertions", ""), ("with alloc, without std, with debug assertions", "alloc")];
/// Checks that are repeated there.
const REPEATED: [&[&str]; 2] = [
    &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C11", "C12", "C13", "C14", "C15", "C16", "C18", "C19", "C21", "C23"],
    &["C09", "C10", "C11", "C16"],
];
fn build_elsewhere(k: usize) -> Result<String, String> {
    let v = verif_dir();
    let dir = format!("{v}/target/elsewhere-{k}");
    let o = Command::new("cargo")
        .current_dir(format!("{v}/mc"))
        .args(["build", "--offline", "--profile", "checked", "--no-default-features", "--features", ELSEWHERE[k].1, "--target-dir", &dir])
        .env_remove("RUSTFLAGS")
        .env_remove("CARGO_TARGET_DIR")
        .output()
        .expect("cargo");
    if o.status.success() {
        return Ok(format!("{dir}/checked/mc"));
    }
    let e = String::from_utf8_lossy(&o.stderr).to_string();
    if !e.contains("could not compile") {
        eprintln!("{e}");
        eprintln!("cargo could not build the harness");
        std::process::exit(2);
    }
    let i = e.find("error").unwrap_or(0);
    Err(e[i..].chars().take(600).collect())
}
/// What a repeated check reports that the same case does not show in this process's configuration.
struct Repeated {
    /// (configuration, property, report if it holds only here, cases, calls)
    done: Vec<(usize, &'static str, Option<String>, u64, u64)>,
}
fn repeat(tier: &str, bins: &[Result<String, String>]) -> Repeated {
    let me = std::env::current_exe().unwrap();
    let mut done = vec![];
    for (k, b) in bins.iter().enumerate() {
        let bin = match b {
            Ok(b) => b,
            Err(e) => {
                done.push((k, "", Some(format!("a client program accepted with std does not compile {}: {e}", ELSEWHERE[k].0)), 0, 0));
                continue;
            }
        };
        for id in REPEATED[k] {
            let out = format!("{}/target/elsewhere-out-{}", verif_dir(), std::process::id());
            let o = Command::new(bin).args(["check", id, tier]).env("VERIF_DIR", &out).stderr(Stdio::null()).output().expect("harness");
            let text = String::from_utf8_lossy(&o.stdout).to_string();
            let num = |what: &str| text.lines().rev().find(|l| l.starts_with(&format!("{id}:"))).and_then(|l| l.split(what).next()?.rsplit(' ').next()?.parse().ok()).unwrap_or(0u64);
            let mut only = None;
            let mut any = false;
            for l in text.lines().filter(|l| l.starts_with("VIOLATION")) {
                any = true;
                let Some(file) = l.split("replay=").nth(1) else { continue };
                // is it like that here as well? Then it is not a matter of the configuration.
                let r = Command::new(&me).args(["replay", file]).stderr(Stdio::null()).output().expect("replay");
                if !String::from_utf8_lossy(&r.stdout).contains("VIOLATION") {
                    let what = text.lines().filter(|l| l.starts_with("  section")).collect::<Vec<_>>().join("; ");
                    only = Some(format!("{}: unlike with std, {id} fails: {what}", ELSEWHERE[k].0).chars().take(700).collect::<String>());
                }
            }
            if !o.status.success() && !any {
                only = Some(format!("{}: {id} ended with {}", ELSEWHERE[k].0, o.status));
            }
            done.push((k, *id, only, num(" cases"), num(" API calls")));
            let _ = std::fs::remove_dir_all(&out);
        }
    }
    Repeated { done }
}
struct Elsewhere(Arc<Repeated>);
impl Body for Elsewhere {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (k, id, ref bad_, cases, calls) = self.0.done[d[0]];
        t.calls("operation", calls);
        t.compared += cases;
        t.state_u("configuration and check", &[k as u64, id.bytes().map(|b| b as u64).sum(), cases]);
        match bad_ {
            Some(m) => bad(m.clone()),
            None => Ok(()),
        }
    }
}
/// Compile the dependencies ahead of the checks.
pub fn prepare() {
    let e: Vec<_> = (0..ELSEWHERE.len()).map(|k| std::thread::spawn(move || build_elsewhere(k))).collect();
    build_all(false);
    for h in e {
        let _ = h.join();
    }
}
/// Results of one configuration: words, and where each case starts.
struct Run {
    words: Vec<u64>,
    start: Vec<usize>,
    end: String,
}
/// Written before anything is started: a file open for writing cannot be run.
fn put(bin: &[u8], name: usize) -> String {
    use std::os::unix::fs::PermissionsExt;
    let path = format!("{}/target/probe/run-{}-{name}", verif_dir(), std::process::id());
    std::fs::write(&path, bin).unwrap();
    std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0o755)).unwrap();
    path
}
fn run(path: &str, level: usize) -> Run {
    let mut kid = Command::new(path).arg(level.to_string()).stdout(Stdio::piped()).stderr(Stdio::null()).stdin(Stdio::null()).spawn().expect("probe");
    let mut so = kid.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut b = vec![];
        std::io::Read::read_to_end(&mut so, &mut b).unwrap();
        b
    });
    let t0 = Instant::now();
    let end = loop {
        match kid.try_wait().unwrap() {
            Some(s) if s.success() => break String::new(),
            Some(s) => break if s.code() == Some(101) { "panicked".to_string() } else { format!("ended with {s}") },
            None if t0.elapsed() > Duration::from_secs(if level == 0 { 100 } else { 400 }) => {
                let _ = kid.kill();
                let _ = kid.wait();
                break "did not finish".into();
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    };
    let b = rd.join().unwrap();
    let _ = std::fs::remove_file(path);
    let words: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let mut start = vec![];
    let mut i = 0;
    while i < words.len() {
        let case = (words[i] >> 32) as usize;
        if case >= start.len() {
            start.push(i);
        }
        i += 1 + (words[i] & 0xffff) as usize;
    }
    Run { words, start, end }
}
struct Compare {
    runs: Arc<Vec<(usize, Result<Run, String>)>>,
    cases: usize,
}
/// The records of a case.
fn records(r: &Run, case: usize) -> Vec<(u32, Vec<f64>)> {
    let mut v = vec![];
    let Some(&s) = r.start.get(case) else { return v };
    let e = r.start.get(case + 1).copied().unwrap_or(r.words.len());
    let mut i = s;
    while i < e {
        let (op, n) = ((r.words[i] >> 16 & 0xffff) as u32, (r.words[i] & 0xffff) as usize);
        if i + 1 + n > r.words.len() {
            break;
        }
        v.push((op, r.words[i + 1..i + 1 + n].iter().map(|w| f64::from_bits(*w)).collect()));
        i += 1 + n;
    }
    v
}
fn has(features: &str, op: u32) -> bool {
    let std = features.contains("std") || features.contains("default");
    match op {
        500.. => std,
        400.. => std || features.contains("alloc"),
        _ => true,
    }
}
impl Body for Compare {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (ci, ref r) = self.runs[d[0] + 1];
        let name = CONFIGS[ci].name;
        let base = self.runs[0].1.as_ref().unwrap();
        let r = match r {
            Ok(r) => r,
            Err(e) => return bad(format!("a client program accepted with std does not compile with {name}: {e}")),
        };
        let case = d[1];
        let mut want = records(base, case).into_iter().filter(|(op, _)| has(CONFIGS[ci].features, *op));
        let got = records(r, case);
        let single = case % 2 == 1;
        let shown = format!("{name}, case {case}");
        let mut n = 0;
        for (op, g) in &got {
            let Some((wop, w)) = want.next() else { return bad(format!("{shown}: more results than with std, operation {op}")) };
            n += 1;
            t.state_u("result", &[case as u64, *op as u64, w.first().map_or(0, |x| x.to_bits()), n]);
            t.yes(*op == wop && g.len() == w.len(), || format!("{shown}: operation {op} with {} outputs where std has operation {wop} with {}", g.len(), w.len()))?;
            // far above the rounding of any operation of the lattice, far below its values
            let tol = if single { 1e-3 } else { 1e-9 };
            let scale = w.iter().filter(|x| x.is_finite()).fold(0.0f64, |a, b| a.max(b.abs()));
            for (k, (a, b)) in g.iter().zip(w).enumerate() {
                t.compared += 1;
                let same = *a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol * scale.max(1e-30);
                if !same {
                    return bad(format!("{shown}: output {k} of operation {op} is {a:e}, with std in release mode it is {b:e}"));
                }
            }
        }
        t.calls("operation", n);
        if let Some((op, _)) = want.next() {
            return bad(format!("{shown}: {} before operation {op}", if r.end.is_empty() { "ended" } else { &r.end }));
        }
        // after the last case: how the program ended
        if case + 1 == self.cases {
            t.yes(r.end.is_empty(), || format!("{name}: the client program {}", r.end))?;
        }
        Ok(())
    }
}
/// The configurations themselves: does the client compile, does it reach the end?
struct Accepts {
    runs: Arc<Vec<(usize, Result<Run, String>)>>,
}
impl Body for Accepts {
    fn run<S: Sc>(&self, _x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        let (ci, ref r) = self.runs[d[0]];
        t.call("build and run");
        t.state_u("configuration", &[ci as u64]);
        match r {
            Err(e) => bad(format!("the client program does not compile with {}: {e}", CONFIGS[ci].name)),
            Ok(r) => t.yes(r.end.is_empty(), || format!("{}: the client program {} in case {}", CONFIGS[ci].name, r.end, r.start.len().max(1) - 1)),
        }
    }
}
pub fn plan(thorough: bool) -> Plan {
    let level = thorough as usize;
    let bins: Vec<_> = (0..ELSEWHERE.len()).map(|k| std::thread::spawn(move || build_elsewhere(k))).collect();
    let built = build_all(thorough);
    let bins: Vec<_> = bins.into_iter().map(|h| h.join().unwrap()).collect();
    let built: Vec<_> = built.into_iter().map(|(i, b)| (i, b.map(|b| put(&b, i)))).collect();
    let hs: Vec<_> = built.into_iter().map(|(i, b)| std::thread::spawn(move || (i, b.map(|p| run(&p, level))))).collect();
    let runs: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    let rep = Arc::new(repeat(if thorough { "thorough" } else { "quick" }, &bins));
    let cases = runs[0].1.as_ref().map_or(0, |r| r.start.len());
    let n = runs.len();
    let runs = Arc::new(runs);
    let mut s = vec![Section::new("configurations", Accepts { runs: runs.clone() }).disc("configuration", n).scalars(&[Scal::F64]).no_closure()];
    let nr = rep.done.len();
    s.push(Section::new("checks repeated", Elsewhere(rep)).disc("configuration and check", nr).scalars(&[Scal::F64]).no_closure());
    if cases > 0 {
        s.push(Section::new("results", Compare { runs, cases }).disc("configuration", n - 1).disc("pose, model and points", cases).scalars(&[Scal::F64]).no_closure());
    }
    Plan {
        sections: s,
        rule: "a state is an operation's result in one case of the lattice (pose x intrinsics x points x precision); a transition is one operation in one configuration",
        assumptions: vec![
            "The reference is the std release build; its agreement with the documented geometry is what the other checks decide.",
            "serde-serialize without std is built as a hosted program: nalgebra's serde-serialize feature itself needs std. serde-serialize with alloc but without std does not compile inside nalgebra 0.33 and is not explored.",
        ],
    }
}
