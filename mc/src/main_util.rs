//! Command line, evidence, replay files and known findings shared by every harness binary.
use crate::engine::{Checkable, Report, RunCfg};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Entry {
    pub check: Box<dyn Checkable>,
    pub depth: usize,
    pub max_states: u64,
}
impl Entry {
    pub fn new<H: crate::Harness + 'static>(name: impl Into<String>, h: H, depth: usize) -> Entry
    where
        H::World: 'static,
    {
        Entry { check: Box::new(crate::Bound { name: name.into(), h }), depth, max_states: 6_000_000 }
    }
}

pub struct PropertyPlan {
    pub entries: Vec<Entry>,
    /// what the alphabet, oracle and bound are
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string()))
}

pub fn known_findings(dir: &Path, prop: &str) -> BTreeMap<String, String> {
    let p = dir.join("known_findings.json");
    let mut out = BTreeMap::new();
    if let Ok(s) = std::fs::read_to_string(p) {
        let v: Value = serde_json::from_str(&s).expect("known_findings.json");
        for f in v["findings"].as_array().cloned().unwrap_or_default() {
            if f["property"].as_str() == Some(prop) {
                out.insert(f["key"].as_str().unwrap().to_string(), f["what"].as_str().unwrap_or("").to_string());
            }
        }
    }
    out
}

pub fn run_main(plan: fn(&str, bool) -> Option<PropertyPlan>) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|s| s.as_str()) == Some("--replay") {
        replay(plan, &args[1]);
    }
    let prop = args.first().cloned().unwrap_or_else(|| {
        eprintln!("usage: <bin> PROPERTY [quick|thorough] | --replay FILE");
        std::process::exit(2)
    });
    let tier = args
        .get(1)
        .cloned()
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut p = match plan(&prop, thorough) {
        Some(p) => p,
        None => {
            eprintln!("property {} is not decided by this binary", prop);
            std::process::exit(2)
        }
    };
    if let Ok(f) = std::env::var("MC_ONLY") {
        p.entries.retain(|e| e.check.name().contains(&f));
    }
    if let Ok(d) = std::env::var("MC_DEPTH") {
        for e in p.entries.iter_mut() {
            e.depth = d.parse().unwrap();
        }
    }
    let dir = verif_dir();
    let known = known_findings(&dir, &prop);
    let t0 = Instant::now();
    let budget: u64 = std::env::var("MC_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 3000 } else { 420 });
    let deadline = t0 + Duration::from_secs(budget);
    let ncpu: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let n = p.entries.len();
    let par = n.min(ncpu).max(1);
    let per = if n <= 2 { ncpu } else if n < 6 { (ncpu / 2).max(1) } else { 2 };
    let next = AtomicUsize::new(0);
    let reports: Mutex<Vec<(usize, Report)>> = Mutex::new(vec![]);
    let found = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|sc| {
        for _ in 0..par {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n || found.load(Ordering::SeqCst) {
                        break;
                    }
                    let e = &p.entries[i];
                    let cfg = RunCfg {
                        property: prop.clone(),
                        depth: e.depth,
                        max_states: e.max_states,
                        deadline,
                        threads: per,
                        known: known.keys().cloned().collect::<HashSet<_>>(),
                    };
                    let r = e.check.run(&cfg);
                    if r.violation.is_some() {
                        found.store(true, Ordering::SeqCst);
                    }
                    reports.lock().unwrap().push((i, r));
                })
                .unwrap();
        }
    });
    let mut reports = reports.into_inner().unwrap();
    reports.sort_by_key(|x| x.0);
    let reports: Vec<Report> = reports.into_iter().map(|x| x.1).collect();
    let wall = t0.elapsed().as_secs_f64();
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    for r in &reports {
        for (k, v) in &r.outcomes {
            *outcomes.entry(k.clone()).or_insert(0) += v;
        }
        for s in r.samples.iter().take(if reports.len() > 6 { 1 } else { 3 }) {
            samples.push(json!({"configuration": r.harness, "history": s}));
        }
    }
    let violation = reports.iter().find(|r| r.violation.is_some());
    if samples.is_empty() {
        if let Some(v) = violation {
            samples.push(json!({"configuration": v.harness, "history": format!("{:?}", v.violation.as_ref().unwrap().ops_debug)}));
        } else {
            samples.push(json!({"configuration": reports.first().map(|r| r.harness.clone()), "history": "initial state"}));
        }
    }
    let ev = json!({
        "property": prop, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": reports.iter().map(|r| r.states).sum::<u64>(),
            "transitions": reports.iter().map(|r| r.transitions).sum::<u64>(),
            "traces_validated_against_impl": reports.iter().map(|r| r.replayed).sum::<u64>(),
            "exhaustive": reports.iter().all(|r| !r.capped) && violation.is_none(),
            "rule": p.rule,
            "samples": samples,
            "configurations": reports.iter().map(|r| json!({
                "name": r.harness, "depth_bound": r.depth, "depth_completed": r.depth_completed,
                "states": r.states, "transitions": r.transitions, "fresh_chain_replays": r.replayed,
                "state_space_exhausted": r.exhausted, "capped": r.capped,
                "branches_pruned_by_other_properties": r.pruned_other, "wall_s": r.wall_s,
            })).collect::<Vec<_>>(),
            "outcomes": outcomes,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": if violation.is_some() {1} else {0},
    });
    std::fs::create_dir_all(dir.join("evidence")).ok();
    std::fs::write(dir.join("evidence").join(format!("{}.json", prop)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    for r in &reports {
        println!(
            "{}: depth {}/{} states {} transitions {} replays {}{}{}{} {:.1}s",
            r.harness, r.depth_completed, r.depth, r.states, r.transitions, r.replayed,
            if r.capped { " CAPPED" } else { "" },
            if r.exhausted { " exhausted" } else { "" },
            if r.pruned_other > 0 { format!(" pruned {}", r.pruned_other) } else { String::new() },
            r.wall_s
        );
    }
    if std::env::var("MC_OUTCOMES").is_ok() {
        for (k, v) in &outcomes {
            println!("   {:8} {}", v, k);
        }
    }
    let mut seen = HashSet::new();
    for r in &reports {
        for (k, (msg, ops)) in &r.known {
            if seen.insert(k.clone()) {
                println!("KNOWN-FINDING: property={} {} [{}] e.g. {} after {:?}", prop, known[k], k, msg, ops);
            }
        }
    }
    if let Some(r) = violation {
        let f = r.violation.as_ref().unwrap();
        let rd = dir.join("replays");
        std::fs::create_dir_all(&rd).ok();
        let path = rd.join(format!("{}.json", prop));
        let body = json!({"property": prop, "harness": r.harness, "key": f.v.key, "message": f.v.msg, "ops": f.ops, "history": f.ops_debug,
            "replay_with": format!("/verif/check.sh {} --replay {}", prop, path.display())});
        std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).unwrap();
        println!("{}: {} [{}]", r.harness, f.v.msg, f.v.key);
        for (i, o) in f.ops_debug.iter().enumerate() {
            println!("  {}. {}", i + 1, o);
        }
        println!("VIOLATION property={} replay={}", prop, path.display());
        std::process::exit(1);
    }
    println!("OK property={} {:.1}s", prop, wall);
    std::process::exit(0)
}

fn replay(plan: fn(&str, bool) -> Option<PropertyPlan>, file: &str) -> ! {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let prop = v["property"].as_str().unwrap();
    let name = v["harness"].as_str().unwrap();
    for th in [false, true] {
        if let Some(p) = plan(prop, th) {
            for e in p.entries {
                if e.check.name() == name {
                    match e.check.replay(prop, v["ops"].as_array().unwrap()) {
                        Ok(l) => {
                            println!("history replayed without a violation: {:?}", l);
                            std::process::exit(0)
                        }
                        Err((i, viol)) => {
                            println!("after operation {}: {} [{}]", i, viol.msg, viol.key);
                            println!("VIOLATION property={} replay={}", prop, file);
                            std::process::exit(1)
                        }
                    }
                }
            }
        }
    }
    eprintln!("no harness {} for {}", name, prop);
    std::process::exit(2)
}
