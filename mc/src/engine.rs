//! The explorer: exhaustive products of finite alphabets over real API traces,
//! boundary closure with the traced scalar, violations, replays and evidence.
use crate::num::{self, E};
use crate::scalar::{self, Cmp, Sc, Tr};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default, Clone)]
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x
    }
}
pub type HashSet64 = HashSet<u64, BuildHasherDefault<IdHash>>;

pub enum Fail {
    /// Outside the property's domain (ill-conditioned, degenerate).
    Skip,
    /// The property is broken.
    Bad(String),
}
pub type Res = Result<(), Fail>;
pub fn bad<T>(m: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Bad(m.into()))
}
pub fn skip<T>() -> Result<T, Fail> {
    Err(Fail::Skip)
}

#[derive(Default)]
pub struct Trace {
    pub transitions: u64,
    pub compared: u64,
    pub ill: u64,
    pub states: HashSet64,
    pub log: Option<Vec<String>>,
    /// an error bound above ill_abs * max(1, |value|) makes a comparison vacuous
    pub ill_abs: f64,
}
pub fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xBF58476D1CE4E5B9);
    z ^ (z >> 32)
}
pub fn tag_hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| {
        (h ^ b as u64).wrapping_mul(0x100000001b3)
    })
}
pub const MAX_STATES: usize = 3_000_000;
impl Trace {
    pub fn new() -> Trace {
        Trace {
            ill_abs: 1e-3,
            ..Default::default()
        }
    }
    /// One transition: an API call was made.
    #[inline]
    pub fn call(&mut self, name: &str) {
        self.transitions += 1;
        if let Some(l) = &mut self.log {
            l.push(format!("call {name}"));
        }
    }
    #[inline]
    pub fn calls(&mut self, name: &str, n: u64) {
        self.transitions += n;
        if let Some(l) = &mut self.log {
            l.push(format!("call {name} x{n}"));
        }
    }
    /// A state of the reference model was reached.
    pub fn state(&mut self, tag: &'static str, vals: &[E]) {
        if self.states.len() < MAX_STATES {
            let mut h = tag_hash(tag);
            for v in vals {
                h = mix(h, v.v.hi.to_bits());
            }
            self.states.insert(h);
        }
        if let Some(l) = &mut self.log {
            let s: Vec<String> = vals.iter().map(|v| format!("{:.17e}", v.f())).collect();
            l.push(format!("model {tag} = [{}]", s.join(", ")));
        }
    }
    pub fn state_u(&mut self, tag: &'static str, vals: &[u64]) {
        if self.states.len() < MAX_STATES {
            let h = vals.iter().fold(tag_hash(tag), |h, v| mix(h, *v));
            self.states.insert(h);
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            l.push(f())
        }
    }
    /// The implementation's value must lie within the model's error bound.
    #[inline]
    pub fn near<S: Sc>(&mut self, what: &str, got: S, want: E) -> Res {
        self.near_f(what, got.g(), want)
    }
    pub fn near_f(&mut self, what: &str, got: f64, want: E) -> Res {
        if !(want.e <= self.ill_abs * want.mag().max(1.0)) {
            self.ill += 1;
            return Ok(());
        }
        self.compared += 1;
        let d = (num::D::new(got) - want.v).abs().f();
        if d <= want.e {
            Ok(())
        } else {
            bad(format!(
                "{what}: got {got:e}, model {:e} (allowed error {:e})",
                want.f(),
                want.e
            ))
        }
    }
    pub fn near3<S: Sc>(&mut self, what: &str, got: [S; 3], want: [E; 3]) -> Res {
        for i in 0..3 {
            self.near(what, got[i], want[i])
                .map_err(|f| suffix(f, ["[x]", "[y]", "[z]"][i]))?;
        }
        Ok(())
    }
    pub fn yes(&mut self, cond: bool, msg: impl FnOnce() -> String) -> Res {
        self.compared += 1;
        if cond {
            Ok(())
        } else {
            Err(Fail::Bad(msg()))
        }
    }
}
pub fn suffix(f: Fail, s: &str) -> Fail {
    match f {
        Fail::Bad(m) => Fail::Bad(format!("{m} {s}")),
        f => f,
    }
}

pub trait Body: Send + Sync {
    fn run<S: Sc>(&self, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res;
}
pub trait DynBody: Send + Sync {
    fn go(&self, s: Scal, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Scal {
    F64,
    F32,
    Tr,
}
impl Scal {
    pub fn name(self) -> &'static str {
        match self {
            Scal::F64 => "f64",
            Scal::F32 => "f32",
            Scal::Tr => "traced",
        }
    }
    pub fn parse(s: &str) -> Scal {
        match s {
            "f32" => Scal::F32,
            "traced" => Scal::Tr,
            _ => Scal::F64,
        }
    }
}
impl<B: Body> DynBody for B {
    fn go(&self, s: Scal, x: &[&[f64]], d: &[usize], t: &mut Trace) -> Res {
        match s {
            Scal::F64 => {
                num::set_unit(f64::EPS, f64::TINY);
                t.ill_abs = 1e-4;
                self.run::<f64>(x, d, t)
            }
            Scal::F32 => {
                num::set_unit(f32::EPS, f32::TINY);
                t.ill_abs = 0.05;
                self.run::<f32>(x, d, t)
            }
            Scal::Tr => {
                num::set_unit(Tr::EPS, Tr::TINY);
                t.ill_abs = 1e-4;
                self.run::<Tr>(x, d, t)
            }
        }
    }
}

#[derive(Clone)]
pub struct Group {
    pub name: &'static str,
    pub rows: Vec<Vec<f64>>,
}
pub fn group(name: &'static str, rows: Vec<Vec<f64>>) -> Group {
    Group { name, rows }
}
pub struct Section {
    pub name: &'static str,
    pub groups: Vec<Group>,
    pub discs: Vec<(&'static str, usize)>,
    pub body: Box<dyn DynBody>,
    pub scalars: Vec<Scal>,
    pub closure: bool,
}
pub const BOTH: &[Scal] = &[Scal::F64, Scal::F32];
impl Section {
    pub fn new(name: &'static str, body: impl Body + 'static) -> Section {
        Section {
            name,
            groups: vec![],
            discs: vec![],
            body: Box::new(body),
            scalars: BOTH.to_vec(),
            closure: true,
        }
    }
    pub fn group(mut self, name: &'static str, rows: Vec<Vec<f64>>) -> Self {
        assert!(!rows.is_empty());
        self.groups.push(group(name, rows));
        self
    }
    pub fn disc(mut self, name: &'static str, n: usize) -> Self {
        assert!(n > 0);
        self.discs.push((name, n));
        self
    }
    pub fn scalars(mut self, s: &[Scal]) -> Self {
        self.scalars = s.to_vec();
        self
    }
    pub fn no_closure(mut self) -> Self {
        self.closure = false;
        self
    }
    pub fn size(&self) -> u64 {
        size(&self.groups, &self.discs)
    }
}
fn size(groups: &[Group], discs: &[(&'static str, usize)]) -> u64 {
    groups.iter().map(|g| g.rows.len() as u64).product::<u64>()
        * discs.iter().map(|d| d.1 as u64).product::<u64>()
}
/// Decode case number -> rows and discrete choices; the last dimension varies fastest.
fn decode<'a>(
    groups: &'a [Group],
    discs: &[(&'static str, usize)],
    mut i: u64,
    x: &mut Vec<&'a [f64]>,
    d: &mut Vec<usize>,
) {
    d.clear();
    d.resize(discs.len(), 0);
    for k in (0..discs.len()).rev() {
        d[k] = (i % discs[k].1 as u64) as usize;
        i /= discs[k].1 as u64;
    }
    x.clear();
    x.resize(groups.len(), &[]);
    for k in (0..groups.len()).rev() {
        let n = groups[k].rows.len() as u64;
        x[k] = &groups[k].rows[(i % n) as usize];
        i /= n;
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub section: String,
    pub scalar: Scal,
    pub x: Vec<Vec<f64>>,
    pub d: Vec<usize>,
    pub msg: String,
}

#[derive(Default, Clone)]
pub struct Totals {
    pub cases: u64,
    pub skipped: u64,
    pub transitions: u64,
    pub compared: u64,
    pub ill: u64,
}
impl Totals {
    fn add(&mut self, o: &Totals) {
        self.cases += o.cases;
        self.skipped += o.skipped;
        self.transitions += o.transitions;
        self.compared += o.compared;
        self.ill += o.ill;
    }
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct SiteKey {
    pub file: String,
    pub line: u32,
    pub col: u32,
    pub occ: u8,
}
#[derive(Clone)]
pub struct Cand {
    rel: f64,
    x: Vec<Vec<f64>>,
    d: Vec<usize>,
}
#[derive(Clone, Default)]
pub struct Site {
    pub t: u64,
    pub f: u64,
    cands: Vec<Cand>,
    /// outcome the candidates have
    side: bool,
    pub kind: u8,
}
pub type Sites = HashMap<(usize, u8), (SiteKey, Site)>;

fn key_of(c: &Cmp, occ: u8) -> (usize, u8) {
    // Locations are deduplicated per call site by address only within one codegen unit,
    // so merge by content.
    let h = mix(
        tag_hash(c.loc.file()),
        ((c.loc.line() as u64) << 20) | c.loc.column() as u64,
    );
    (h as usize, occ)
}

fn fold_log(log: &[Cmp], x: &[&[f64]], d: &[usize], sites: &mut Sites) {
    let mut occ: HashMap<usize, u8> = HashMap::new();
    for c in log {
        let (h, _) = key_of(c, 0);
        let o = occ.entry(h).or_insert(0);
        let k = (h, *o);
        if *o < 12 {
            *o += 1;
        }
        let (_, s) = sites.entry(k).or_insert_with(|| {
            (
                SiteKey {
                    file: c.loc.file().to_string(),
                    line: c.loc.line(),
                    col: c.loc.column(),
                    occ: k.1,
                },
                Site {
                    side: c.out,
                    kind: c.kind,
                    ..Default::default()
                },
            )
        });
        if c.out {
            s.t += 1
        } else {
            s.f += 1
        }
        if s.t > 0 && s.f > 0 {
            s.cands.clear();
            continue;
        }
        let rel = (c.a - c.b).abs() / (c.a.abs() + c.b.abs() + 1e-300);
        let rel = if rel.is_nan() { 9.0 } else { rel };
        if s.cands.len() < 6 || rel < s.cands.last().unwrap().rel {
            let cand = Cand {
                rel,
                x: x.iter().map(|r| r.to_vec()).collect(),
                d: d.to_vec(),
            };
            let p = s.cands.partition_point(|c| c.rel <= rel);
            s.cands.insert(p, cand);
            s.cands.truncate(6);
        }
    }
}
fn merge_sites(a: &mut Sites, b: Sites) {
    for (k, (key, s)) in b {
        match a.get_mut(&k) {
            None => {
                a.insert(k, (key, s));
            }
            Some((_, o)) => {
                o.t += s.t;
                o.f += s.f;
                if o.t > 0 && o.f > 0 {
                    o.cands.clear()
                } else {
                    o.cands.extend(s.cands);
                    o.cands.sort_by(|p, q| p.rel.total_cmp(&q.rel));
                    o.cands.truncate(6);
                }
            }
        }
    }
}

pub fn run_one(
    body: &dyn DynBody,
    s: Scal,
    x: &[&[f64]],
    d: &[usize],
    t: &mut Trace,
) -> Res {
    match catch_unwind(AssertUnwindSafe(|| body.go(s, x, d, t))) {
        Ok(r) => r,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into());
            bad(format!("panicked: {m}"))
        }
    }
}

pub struct Ctx {
    pub property: String,
    pub tier: String,
    pub seed: i64,
    pub start: Instant,
    pub threads: usize,
    pub states: HashSet64,
    pub states_capped: bool,
    pub totals: Totals,
    pub sections: Vec<Value>,
    pub samples: Vec<Value>,
    pub violations: Vec<Violation>,
    pub known: Vec<String>,
    pub sites: BTreeMap<SiteKey, (u64, u64)>,
    pub closure_cases: u64,
    pub closure_flips: u64,
    pub extra: serde_json::Map<String, Value>,
    pub assumptions: Vec<String>,
    pub rule: String,
    pub exhaustive: bool,
}

const HANG: Duration = Duration::from_secs(60);

struct Slot {
    since: AtomicU64,
    idx: AtomicU64,
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    /// Explore one product completely for one scalar. Returns the first violation.
    #[allow(clippy::too_many_arguments)]
    fn sweep(
        &mut self,
        sec: &Section,
        groups: &[Group],
        s: Scal,
        collect: Option<&mut Sites>,
        samples: usize,
    ) -> (Totals, Option<Violation>) {
        let total = size(groups, &sec.discs);
        let next = AtomicU64::new(0);
        let best = Mutex::new(None::<(u64, Violation)>);
        let best_idx = AtomicU64::new(u64::MAX);
        let done = AtomicBool::new(false);
        let t0 = Instant::now();
        let slots: Vec<Slot> = (0..self.threads)
            .map(|_| Slot {
                since: AtomicU64::new(u64::MAX),
                idx: AtomicU64::new(0),
            })
            .collect();
        let chunk = (total / (self.threads as u64 * 16)).clamp(1, 256);
        let want_sites = collect.is_some();
        let results: Mutex<Vec<(Totals, HashSet64, Sites)>> = Mutex::new(vec![]);
        let property = self.property.clone();
        let seen = &self.states;
        std::thread::scope(|sc| {
            let workers: Vec<_> = (0..self.threads)
                .map(|w| {
                    let (next, best, best_idx, slots, results) =
                        (&next, &best, &best_idx, &slots, &results);
                    sc.spawn(move || {
                        let mut tot = Totals::default();
                        let mut t = Trace::new();
                        let mut sites = Sites::new();
                        let mut log = vec![];
                        let mut x = vec![];
                        let mut d = vec![];
                        let mut mine = HashSet64::default();
                        loop {
                            let lo = next.fetch_add(chunk, Relaxed);
                            if lo >= total || lo > best_idx.load(Relaxed) {
                                break;
                            }
                            for i in lo..(lo + chunk).min(total) {
                                if i > best_idx.load(Relaxed) {
                                    break;
                                }
                                decode(groups, &sec.discs, i, &mut x, &mut d);
                                slots[w].idx.store(i, Relaxed);
                                slots[w]
                                    .since
                                    .store(t0.elapsed().as_millis() as u64, Relaxed);
                                if want_sites {
                                    scalar::log_begin()
                                }
                                let r = run_one(&*sec.body, s, &x, &d, &mut t);
                                if want_sites {
                                    scalar::log_end(&mut log);
                                    fold_log(&log, &x, &d, &mut sites);
                                }
                                slots[w].since.store(u64::MAX, Relaxed);
                                tot.cases += 1;
                                match r {
                                    Ok(()) => {}
                                    Err(Fail::Skip) => tot.skipped += 1,
                                    Err(Fail::Bad(msg)) => {
                                        let mut b = best.lock().unwrap();
                                        if b.as_ref().map_or(true, |(j, _)| i < *j) {
                                            best_idx.store(i, Relaxed);
                                            *b = Some((
                                                i,
                                                Violation {
                                                    section: sec.name.to_string(),
                                                    scalar: s,
                                                    x: x.iter().map(|r| r.to_vec()).collect(),
                                                    d: d.clone(),
                                                    msg,
                                                },
                                            ));
                                        }
                                    }
                                }
                            }
                            // keep only states not known from earlier sweeps
                            if t.states.len() > 4096 {
                                for h in t.states.drain() {
                                    if mine.len() < MAX_STATES && !seen.contains(&h) {
                                        mine.insert(h);
                                    }
                                }
                            }
                        }
                        for h in t.states.drain() {
                            if mine.len() < MAX_STATES && !seen.contains(&h) {
                                mine.insert(h);
                            }
                        }
                        tot.transitions = t.transitions;
                        tot.compared = t.compared;
                        tot.ill = t.ill;
                        results.lock().unwrap().push((tot, mine, sites));
                    })
                })
                .collect();
            // watchdog: non-termination of the code under test is a violation
            let wd = sc.spawn(|| loop {
                for _ in 0..10 {
                    std::thread::sleep(Duration::from_millis(20));
                    if done.load(Relaxed) {
                        return;
                    }
                }
                let now = t0.elapsed().as_millis() as u64;
                for sl in &slots {
                    let since = sl.since.load(Relaxed);
                    if since != u64::MAX && now.saturating_sub(since) > HANG.as_millis() as u64 {
                        let i = sl.idx.load(Relaxed);
                        let (mut x, mut d) = (vec![], vec![]);
                        decode(groups, &sec.discs, i, &mut x, &mut d);
                        let v = Violation {
                            section: sec.name.to_string(),
                            scalar: s,
                            x: x.iter().map(|r| r.to_vec()).collect(),
                            d,
                            msg: format!("no result after {} s", HANG.as_secs()),
                        };
                        let p = write_replay(&property, &v);
                        println!("  {}", describe(&v));
                        println!("VIOLATION property={property} replay={p}");
                        std::process::exit(1);
                    }
                }
            });
            for w in workers {
                w.join().unwrap();
            }
            done.store(true, Relaxed);
            wd.join().unwrap();
        });
        let mut tot = Totals::default();
        let mut sites = Sites::new();
        for (t, st, si) in results.into_inner().unwrap() {
            tot.add(&t);
            if self.states.len() < 8 * MAX_STATES {
                self.states.extend(st);
            } else {
                self.states_capped = true;
            }
            merge_sites(&mut sites, si);
        }
        if let Some(c) = collect {
            merge_sites(c, sites);
        }
        // written-out samples: first, middle and last case of the product
        for k in 0..samples {
            let i = match k {
                0 => 0,
                1 => total / 2,
                _ => total - 1,
            };
            let (mut x, mut d) = (vec![], vec![]);
            decode(groups, &sec.discs, i, &mut x, &mut d);
            let mut t = Trace::new();
            t.log = Some(vec![]);
            let r = run_one(&*sec.body, s, &x, &d, &mut t);
            let mut l = t.log.unwrap();
            if l.len() > 14 {
                let n = l.len();
                l.truncate(14);
                l.push(format!("... {} more", n - 14));
            }
            self.samples.push(json!({
                "section": sec.name, "case": i, "scalar": s.name(),
                "input": named(groups, &x), "choices": named_d(&sec.discs, &d),
                "trace": l,
                "verdict": match r { Ok(()) => "agrees".to_string(), Err(Fail::Skip) => "outside domain".into(), Err(Fail::Bad(m)) => m },
            }));
        }
        (tot, best.into_inner().unwrap().map(|b| b.1))
    }

    pub fn explore(&mut self, sections: &[Section]) {
        for (n, sec) in sections.iter().enumerate() {
            if !self.violations.is_empty() {
                return;
            }
            let t0 = Instant::now();
            let mut tot = Totals::default();
            for (k, &s) in sec.scalars.iter().enumerate() {
                let ns = if k == 0 {
                    if n == 0 {
                        2
                    } else {
                        1
                    }
                } else {
                    0
                };
                let (t, v) = self.sweep(sec, &sec.groups, s, None, ns);
                tot.add(&t);
                if let Some(v) = v {
                    self.violations.push(v);
                    break;
                }
            }
            self.totals.add(&tot);
            let mut flips = vec![];
            if sec.closure && self.violations.is_empty() {
                flips = self.closure(sec);
            }
            let mut dims: Vec<Value> = sec
                .groups
                .iter()
                .map(|g| json!({"group": g.name, "values": g.rows.len()}))
                .collect();
            dims.extend(
                sec.discs
                    .iter()
                    .map(|d| json!({"choice": d.0, "values": d.1})),
            );
            let sc: Vec<&str> = sec.scalars.iter().map(|s| s.name()).collect();
            self.sections.push(json!({
                "section": sec.name, "alphabet": dims, "product": sec.size(), "scalars": sc,
                "cases": tot.cases, "outside_domain": tot.skipped, "api_calls": tot.transitions,
                "comparisons": tot.compared, "comparisons_ill_conditioned": tot.ill,
                "boundary_closure": flips, "wall_s": (t0.elapsed().as_secs_f64()*100.0).round()/100.0,
            }));
            eprintln!(
                "  [{}] {}: {} cases, {} skipped, {} calls, {} compared, {} ill, {:.2}s",
                self.property,
                sec.name,
                tot.cases,
                tot.skipped,
                tot.transitions,
                tot.compared,
                tot.ill,
                t0.elapsed().as_secs_f64()
            );
        }
    }

    /// Boundary closure: refine the alphabet until every comparison site of
    /// cam-geom seen has both outcomes, or the refinement stops producing new ones.
    fn closure(&mut self, sec: &Section) -> Vec<Value> {
        let mut sites = Sites::new();
        let (t, v) = self.sweep(sec, &sec.groups, Scal::Tr, Some(&mut sites), 0);
        self.closure_cases += t.cases;
        if let Some(v) = v {
            self.violations.push(v);
            return vec![];
        }
        let mut tried: HashSet<(usize, u8)> = HashSet::new();
        let mut report = vec![];
        let rounds = if self.thorough() { 8 } else { 4 };
        for round in 0..rounds {
            let mut todo: Vec<((usize, u8), SiteKey, Site)> = sites
                .iter()
                .filter(|(k, (_, s))| (s.t == 0 || s.f == 0) && !tried.contains(k))
                .map(|(k, (key, s))| (*k, key.clone(), s.clone()))
                .collect();
            todo.sort_by(|a, b| a.1.cmp(&b.1));
            if todo.is_empty() {
                break;
            }
            let mut new_rows: Vec<(usize, Vec<f64>)> = vec![];
            for (k, key, site) in todo {
                tried.insert(k);
                let f = self.flip(sec, k, &site, round);
                if !self.violations.is_empty() {
                    return report;
                }
                report.push(json!({"site": format!("{}:{}:{}#{}", key.file, key.line, key.col, key.occ),
                    "only_outcome_in_alphabet": site.side, "flipped_with": f.len(), "round": round}));
                if !f.is_empty() {
                    self.closure_flips += 1;
                }
                new_rows.extend(f);
            }
            new_rows.sort_by(|a, b| {
                (a.0, a.1.iter().map(|v| v.to_bits()).collect::<Vec<_>>())
                    .cmp(&(b.0, b.1.iter().map(|v| v.to_bits()).collect::<Vec<_>>()))
            });
            new_rows.dedup_by(|a, b| {
                a.0 == b.0
                    && a.1
                        .iter()
                        .zip(&b.1)
                        .all(|(p, q)| p.to_bits() == q.to_bits())
            });
            for gi in 0..sec.groups.len() {
                let rows: Vec<Vec<f64>> = new_rows
                    .iter()
                    .filter(|r| r.0 == gi)
                    .map(|r| r.1.clone())
                    .collect();
                if rows.is_empty() {
                    continue;
                }
                // bound the refined product
                let cap = if self.thorough() { 4_000_000 } else { 400_000 };
                let others = sec.size() / sec.groups[gi].rows.len() as u64;
                let maxrows = (cap / others.max(1)).max(4) as usize;
                let stride = rows.len().div_ceil(maxrows);
                let mut g = sec.groups.clone();
                g[gi].rows = rows.into_iter().step_by(stride).collect();
                let mut scs = sec.scalars.clone();
                scs.push(Scal::Tr);
                for s in scs {
                    let col = if s == Scal::Tr { Some(&mut sites) } else { None };
                    let (t, v) = self.sweep(sec, &g, s, col, 0);
                    self.closure_cases += t.cases;
                    if let Some(v) = v {
                        self.violations.push(v);
                        return report;
                    }
                }
            }
        }
        for (k, s) in sites.values() {
            let e = self.sites.entry(k.clone()).or_insert((0, 0));
            e.0 += s.t;
            e.1 += s.f;
        }
        report
    }

    /// Search for inputs that flip the outcome of a one-sided site.
    fn flip(
        &mut self,
        sec: &Section,
        key: (usize, u8),
        site: &Site,
        _round: usize,
    ) -> Vec<(usize, Vec<f64>)> {
        let mut out: Vec<(usize, Vec<f64>)> = vec![];
        let mut bad: Option<Violation> = None;
        let mut evals = 0usize;
        let budget = if self.thorough() { 60_000 } else { 12_000 };
        let t_limit = Instant::now();
        for cand in &site.cands {
            if out.len() >= 24 || evals > budget || t_limit.elapsed().as_secs() > 8 {
                break;
            }
            let mut cur = cand.x.clone();
            let d = cand.d.clone();
            // returns (difference lhs-rhs, outcome, lhs, rhs) at the site, if reached
            let mut probe = |x: &Vec<Vec<f64>>,
                             evals: &mut usize,
                             bad: &mut Option<Violation>|
             -> Option<(f64, bool, f64, f64)> {
                *evals += 1;
                if x.iter().flatten().any(|v| !in_box(*v)) {
                    return None;
                }
                let xs: Vec<&[f64]> = x.iter().map(|r| r.as_slice()).collect();
                let mut t = Trace::new();
                let mut log = vec![];
                scalar::log_begin();
                let r = run_one(&*sec.body, Scal::Tr, &xs, &d, &mut t);
                scalar::log_end(&mut log);
                if let Err(Fail::Bad(msg)) = r {
                    *bad = Some(Violation {
                        section: sec.name.into(),
                        scalar: Scal::Tr,
                        x: x.clone(),
                        d: d.clone(),
                        msg,
                    });
                }
                let mut n = 0;
                for c in &log {
                    if key_of(c, 0).0 == key.0 {
                        if n == key.1 {
                            return Some((c.a - c.b, c.out, c.a, c.b));
                        }
                        n += 1;
                    }
                }
                None
            };
            for _step in 0..4 {
                let Some((f0, o0, a0, b0)) = probe(&cur, &mut evals, &mut bad) else {
                    break;
                };
                if o0 != site.side {
                    // already flipped (moved across): keep all rows that differ from the table
                    for (gi, r) in cur.iter().enumerate() {
                        if *r != cand.x[gi] {
                            out.push((gi, r.clone()));
                        }
                    }
                    break;
                }
                let mut best: Option<(f64, Vec<Vec<f64>>)> = None;
                let mut flipped = false;
                let flat: Vec<(usize, usize)> = cur
                    .iter()
                    .enumerate()
                    .flat_map(|(g, r)| (0..r.len()).map(move |j| (g, j)))
                    .collect();
                for &(g, j) in &flat {
                    let v = cur[g][j];
                    let mut trials = vec![0.0, -v];
                    for k in -6..=6 {
                        let p = 10f64.powi(k);
                        trials.extend([v * p, p, -p, v + p, v - p]);
                    }
                    trials.extend([
                        v * 0.5,
                        v * 2.0,
                        a0,
                        b0,
                        -a0,
                        -b0,
                        v + f0,
                        v - f0,
                        v - 2.0 * f0,
                        v + 2.0 * f0,
                        b0.abs().sqrt(),
                        b0 * b0,
                    ]);
                    for &(g2, j2) in &flat {
                        if (g2, j2) != (g, j) {
                            trials.extend([cur[g2][j2], -cur[g2][j2]]);
                        }
                    }
                    let mut more = vec![];
                    let mut i = 0;
                    while i < trials.len() + more.len() {
                        let x1 = if i < trials.len() {
                            trials[i]
                        } else {
                            more[i - trials.len()]
                        };
                        let primary = i < trials.len();
                        i += 1;
                        if !x1.is_finite() || x1 == v {
                            continue;
                        }
                        let mut y = cur.clone();
                        y[g][j] = x1;
                        if let Some((f1, o1, _, _)) = probe(&y, &mut evals, &mut bad) {
                            if o1 != site.side {
                                flipped = true;
                                if out.len() < 48 {
                                    out.push((g, y[g].clone()));
                                }
                            } else {
                                if f1.abs() < f0.abs() * 0.9
                                    && best.as_ref().map_or(true, |b| f1.abs() < b.0)
                                {
                                    best = Some((f1.abs(), y.clone()));
                                }
                                if primary && f1 != f0 && f1.is_finite() && f0.is_finite() {
                                    let r = v - f0 * (x1 - v) / (f1 - f0);
                                    if r.is_finite() && more.len() < 200 {
                                        more.extend([r, r + 1e-6 * (r - v), r + 0.1 * (r - v)]);
                                    }
                                }
                            }
                        }
                        if evals > budget {
                            break;
                        }
                    }
                }
                // whole-group moves: scaling
                for g in 0..cur.len() {
                    for k in -6..=6 {
                        for m in [1.0, 3.0, -1.0] {
                            let mut y = cur.clone();
                            for v in &mut y[g] {
                                *v *= m * 10f64.powi(k)
                            }
                            if let Some((_, o1, _, _)) = probe(&y, &mut evals, &mut bad) {
                                if o1 != site.side {
                                    flipped = true;
                                    out.push((g, y[g].clone()));
                                }
                            }
                        }
                    }
                }
                if let Some(v) = bad.take() {
                    self.violations.push(v);
                    return out;
                }
                if flipped || evals > budget {
                    break;
                }
                match best {
                    Some((_, y)) => cur = y,
                    None => break,
                }
            }
        }
        out
    }
}
/// Inputs the boundary closure may introduce.
fn in_box(v: f64) -> bool {
    v == 0.0 || (v.abs() >= 1e-7 && v.abs() <= 1e7)
}

fn named(groups: &[Group], x: &[&[f64]]) -> Value {
    let mut m = serde_json::Map::new();
    for (g, r) in groups.iter().zip(x) {
        let r: Vec<Value> = r
            .iter()
            .take(24)
            .map(|v| {
                if v.is_finite() {
                    json!(v)
                } else {
                    json!(format!("{v}"))
                }
            })
            .collect();
        m.insert(g.name.into(), json!(r));
    }
    Value::Object(m)
}
fn named_d(discs: &[(&'static str, usize)], d: &[usize]) -> Value {
    let mut m = serde_json::Map::new();
    for (g, r) in discs.iter().zip(d) {
        m.insert(g.0.into(), json!(r));
    }
    Value::Object(m)
}
pub fn describe(v: &Violation) -> String {
    format!(
        "section={} scalar={} x={:?} d={:?}: {}",
        v.section,
        v.scalar.name(),
        v.x,
        v.d,
        v.msg
    )
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
pub fn write_replay(property: &str, v: &Violation) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let xb: Vec<Vec<String>> = v
        .x
        .iter()
        .map(|r| r.iter().map(|f| format!("{:016x}", f.to_bits())).collect())
        .collect();
    let xd: Vec<Vec<String>> = v
        .x
        .iter()
        .map(|r| r.iter().map(|f| format!("{f:e}")).collect())
        .collect();
    let h = v
        .x
        .iter()
        .flatten()
        .fold(tag_hash(&v.section), |h, f| mix(h, f.to_bits()));
    let h = v.d.iter().fold(h, |h, f| mix(h, *f as u64));
    let p = format!("{dir}/{property}-{:08x}.json", h as u32);
    let body = json!({"property": property, "section": v.section, "scalar": v.scalar.name(),
        "x_bits": xb, "x": xd, "d": v.d, "message": v.msg,
        "how": format!("bash {}/run.sh replay {p}", verif_dir())});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap());
    p
}
pub fn read_replay(path: &str) -> (String, Violation) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let x = v["x_bits"]
        .as_array()
        .unwrap()
        .iter()
        .map(|r| {
            r.as_array()
                .unwrap()
                .iter()
                .map(|s| f64::from_bits(u64::from_str_radix(s.as_str().unwrap(), 16).unwrap()))
                .collect()
        })
        .collect();
    let d = v["d"]
        .as_array()
        .unwrap()
        .iter()
        .map(|s| s.as_u64().unwrap() as usize)
        .collect();
    (
        v["property"].as_str().unwrap().to_string(),
        Violation {
            section: v["section"].as_str().unwrap().into(),
            scalar: Scal::parse(v["scalar"].as_str().unwrap()),
            x,
            d,
            msg: v["message"].as_str().unwrap_or("").into(),
        },
    )
}
