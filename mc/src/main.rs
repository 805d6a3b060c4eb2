#![allow(clippy::needless_range_loop)]
mod alloc;
mod common;
mod engine;
mod model;
mod num;
mod props;
mod scalar;
mod step;
mod tables;
mod tok;
use engine::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::time::Instant;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn new_ctx(id: &str, tier: &str) -> Ctx {
    Ctx {
        property: id.into(),
        tier: tier.into(),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        start: Instant::now(),
        threads: std::thread::available_parallelism().map_or(8, |n| n.get()).min(16),
        states: HashSet64::default(),
        states_capped: false,
        totals: Totals::default(),
        sections: vec![],
        samples: vec![],
        violations: vec![],
        known: vec![],
        sites: BTreeMap::new(),
        closure_cases: 0,
        closure_flips: 0,
        extra: Default::default(),
        assumptions: vec![],
        rule: String::new(),
        exhaustive: true,
    }
}
fn main() {
    if std::env::var_os("MC_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = &a[2];
            let tier = a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            let mut cx = new_ctx(id, &tier);
            let Some(p) = props::plan(id, cx.thorough()) else {
                eprintln!("unknown property {id}");
                std::process::exit(2);
            };
            cx.rule = p.rule.into();
            cx.assumptions.extend(p.assumptions.iter().map(|s| s.to_string()));
            cx.explore(&p.sections);
            finish(cx);
        }
        Some("prepare") => {
            props::c17::prepare();
            props::c24::prepare();
        }
        Some("counts") => props::c20::counts(),
        Some("op") => props::c20::child(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()),
        Some("replay") => {
            let (id, v) = read_replay(&a[2]);
            for tier in [false, true] {
                let Some(p) = props::plan(&id, tier) else { continue };
                let Some(sec) = p.sections.iter().find(|s| s.name == v.section) else { continue };
                if sec.discs.len() != v.d.len() || sec.discs.iter().zip(&v.d).any(|(n, i)| *i >= n.1) {
                    continue;
                }
                let x: Vec<&[f64]> = v.x.iter().map(|r| r.as_slice()).collect();
                let mut t = Trace::new();
                t.log = Some(vec![]);
                let r = run_one(&*sec.body, v.scalar, &x, &v.d, &mut t);
                for l in t.log.unwrap() {
                    println!("  {l}");
                }
                match r {
                    Ok(()) => println!("holds ({} tables)", if tier { "thorough" } else { "quick" }),
                    Err(Fail::Skip) => println!("outside the property's domain"),
                    Err(Fail::Bad(m)) => {
                        println!("{m}");
                        println!("VIOLATION property={id} replay={}", a[2]);
                        std::process::exit(1);
                    }
                }
            }
        }
        _ => {
            eprintln!("usage: mc check ID [tier] | mc replay FILE");
            std::process::exit(2);
        }
    }
}
fn finish(cx: Ctx) {
    let mut replays = vec![];
    for v in &cx.violations {
        replays.push(write_replay(&cx.property, v));
    }
    let two_sided = cx.sites.values().filter(|(a, b)| *a > 0 && *b > 0).count();
    let sites: Vec<_> = cx
        .sites
        .iter()
        .filter(|(_, (a, b))| *a == 0 || *b == 0)
        .map(|(k, (a, b))| format!("{}:{}:{} #{} true={a} false={b}", k.file.rsplit('/').next().unwrap_or(""), k.line, k.col, k.occ))
        .collect();
    let t = &cx.totals;
    let mut cov = json!({
        "states": cx.states.len(),
        "states_counter_saturated": cx.states_capped,
        "transitions": t.transitions,
        "traces_validated_against_impl": t.cases + cx.closure_cases,
        "state_rule": cx.rule,
        "exhaustive": cx.exhaustive,
        "bounds": "the complete product of the alphabets listed per section, each case run on the real crate (no sampling)",
        "cases": t.cases,
        "outside_domain": t.skipped,
        "comparisons_with_model": t.compared,
        "comparisons_ill_conditioned": t.ill,
        "sections": cx.sections,
        "samples": cx.samples,
        "boundary_closure": {
            "cases": cx.closure_cases,
            "comparison_sites_reached": cx.sites.len(),
            "both_outcomes_explored": two_sided,
            "sites_flipped_by_refinement": cx.closure_flips,
            "one_sided_sites": sites,
        },
    });
    for (k, v) in &cx.extra {
        cov[k] = v.clone();
    }
    let ev = json!({
        "property": cx.property,
        "tier": cx.tier,
        "seed": cx.seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": cx.assumptions,
        "wall_s": cx.start.elapsed().as_secs_f64(),
        "violations": cx.violations.len(),
        "violation_details": cx.violations.iter().zip(&replays).map(|(v, p)| json!({"replay": p, "what": describe(v)})).collect::<Vec<_>>(),
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", cx.property), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    for k in &cx.known {
        println!("KNOWN-FINDING: property={} {k}", cx.property);
    }
    for (v, p) in cx.violations.iter().zip(&replays) {
        let d: String = describe(v).chars().take(900).collect();
        println!("  {d}");
        println!("VIOLATION property={} replay={p}", cx.property);
    }
    println!(
        "{}: {} cases, {} API calls, {} model states, {} comparisons, {:.1}s",
        cx.property,
        t.cases + cx.closure_cases,
        t.transitions,
        cx.states.len(),
        t.compared,
        cx.start.elapsed().as_secs_f64()
    );
    std::process::exit(if cx.violations.is_empty() { 0 } else { 1 });
}
