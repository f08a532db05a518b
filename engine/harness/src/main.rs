mod cfg;
mod desc;
mod flight;
mod gen;
mod lock;
mod mem;
mod model;
mod pb;
mod prop;
mod props;
mod rng;
mod world;

#[global_allocator]
static ALLOC: mem::Tagging = mem::Tagging;

use prop::*;
use rng::Rng;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashSet};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn arg(name: &str) -> Option<String> {
    let v: Vec<String> = std::env::args().collect();
    v.iter().position(|a| a == name).and_then(|i| v.get(i + 1).cloned())
}

fn find(id: &str) -> &'static Prop {
    match props::all().iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}

fn case_seed(base: u64, n: u64) -> u64 {
    let mut x = base.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(n.wrapping_mul(0xBF58_476D_1CE4_E5B9)).wrapping_add(1);
    x ^= x >> 31;
    x = x.wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 29)
}

/// One worker: runs cases shard, shard+N, ... and prints what it saw as one JSON line.
fn shard() -> i32 {
    let p = find(&arg("--prop").unwrap_or_default());
    let base: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let idx: u64 = arg("--shard").and_then(|s| s.parse().ok()).unwrap_or(0);
    let of: u64 = arg("--of").and_then(|s| s.parse().ok()).unwrap_or(1);
    let total: u64 = arg("--cases").and_then(|s| s.parse().ok()).unwrap_or(100);
    let secs: u64 = arg("--secs").and_then(|s| s.parse().ok()).unwrap_or(60);
    let note = arg("--note");
    let start = Instant::now();
    let mut cov = Cov::default();
    let mut found: Vec<J> = vec![];
    let mut n = idx;
    let mut extra = 0u64;
    while n < total && start.elapsed() < Duration::from_secs(secs) {
        let seed = case_seed(base, n);
        if let Some(f) = &note {
            let _ = std::fs::write(f, seed.to_string());
        }
        cov.evaluations += 1;
        if let Err(v) = run_case(p, &mut Rng::new(seed), &mut cov) {
            let mut j = v.json();
            j["case_seed"] = json!(seed);
            found.push(j);
        }
        if !found.is_empty() {
            // keep looking a little for a shorter witness
            extra += 1;
            if extra > 300 || found.len() >= 10 {
                break;
            }
        }
        n += of;
    }
    if let Some(f) = &note {
        let _ = std::fs::remove_file(f);
    }
    found.sort_by_key(|j| (j["trace"].as_array().map_or(0, |t| t.len()), j["config"].as_str().map_or(0, |t| t.len())));
    found.truncate(1);
    let distinct: Vec<u64> = cov.distinct.iter().copied().collect();
    println!(
        "{}",
        json!({"evaluations": cov.evaluations, "events": cov.events, "states": cov.states, "distinct": distinct,
               "samples": cov.samples, "found": found, "ran_out_of_time": n < total && found.is_empty()})
    );
    0
}

/// A panic of the harness itself, not of a callback into the module.
fn run_case(p: &prop::Prop, rng: &mut Rng, cov: &mut Cov) -> Result<(), prop::Violation> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.case)(rng, cov))) {
        Ok(r) => r,
        Err(_) => {
            eprintln!("harness: {}", world::LAST_PANIC.with(|p| p.borrow().clone()));
            std::process::exit(101)
        }
    }
}

fn check() -> i32 {
    let p = find(&arg("--prop").unwrap_or_default());
    let tier = arg("--tier").unwrap_or_else(|| "quick".into());
    let base: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let dir = arg("--dir").unwrap_or_else(|| "/verif".into());
    let work = format!("{dir}/work/{}", p.id);
    let _ = std::fs::create_dir_all(&work);
    let start = Instant::now();
    let known: Vec<(String, String, String)> = std::fs::read_to_string(format!("{dir}/known_findings.json"))
        .ok()
        .and_then(|s| serde_json::from_str::<J>(&s).ok())
        .and_then(|j| j["findings"].as_array().cloned())
        .unwrap_or_default()
        .iter()
        .map(|f| (f["property"].as_str().unwrap_or("").to_string(), f["signature"].as_str().unwrap_or("").to_string(), f["observed"].as_str().unwrap_or("").to_string()))
        .collect();
    let (cases, secs) = if tier == "thorough" { (p.thorough, 700) } else { (p.quick, 150) };
    let of = 8u64;

    // fixed scenarios first
    let mut violations: Vec<J> = vec![];
    let mut known_seen = vec![];
    for (sig, run) in p.probes {
        if let Err(e) = run() {
            if known.iter().any(|(pr, s, o)| pr == p.id && s == sig && *o == e) {
                println!("KNOWN-FINDING: property={} {}: {}", p.id, sig, e);
                known_seen.push(sig.to_string());
            } else {
                violations.push(Violation::new(format!("probe:{sig}"), e).json());
            }
        }
    }

    let exe = std::env::current_exe().expect("own path");
    let mut kids = vec![];
    for i in 0..of {
        let note = format!("{work}/shard-{i}.seed");
        let child = Command::new(&exe)
            .args(["shard", "--prop", p.id, "--seed", &base.to_string(), "--shard", &i.to_string(), "--of", &of.to_string()])
            .args(["--cases", &cases.to_string(), "--secs", &secs.to_string(), "--note", &note])
            .env("RUST_BACKTRACE", "0")
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn shard");
        kids.push((i, note, child));
    }
    let mut merged = Cov::default();
    let mut crashed = vec![];
    let mut out_of_time = 0;
    let mut distinct: HashSet<u64> = HashSet::new();
    let limit = Duration::from_secs(secs + 60);
    for (i, note, mut child) in kids {
        let mut out = child.stdout.take().expect("stdout");
        let reader = std::thread::spawn(move || {
            use std::io::Read;
            let mut s = String::new();
            let _ = out.read_to_string(&mut s);
            s
        });
        let mut hung = false;
        let status = loop {
            match child.try_wait() {
                Ok(Some(st)) => break Some(st),
                Ok(None) if start.elapsed() > limit => {
                    let _ = child.kill();
                    let _ = child.wait();
                    hung = true;
                    break None;
                }
                Ok(None) => std::thread::sleep(Duration::from_millis(30)),
                Err(_) => break None,
            }
        };
        let text = reader.join().unwrap_or_default();
        let ok = status.is_some_and(|s| s.success());
        let Some(j) = text.lines().last().and_then(|l| serde_json::from_str::<J>(l).ok()).filter(|_| ok) else {
            let seed = std::fs::read_to_string(&note).unwrap_or_default();
            crashed.push(json!({"shard": i, "hung": hung, "status": format!("{status:?}"), "case_seed": seed.trim().parse::<u64>().unwrap_or(0)}));
            continue;
        };
        merged.evaluations += j["evaluations"].as_u64().unwrap_or(0);
        merged.events += j["events"].as_u64().unwrap_or(0);
        if j["ran_out_of_time"].as_bool() == Some(true) {
            out_of_time += 1;
        }
        for (k, v) in j["states"].as_object().into_iter().flatten() {
            *merged.states.entry(k.clone()).or_default() += v.as_u64().unwrap_or(0);
        }
        distinct.extend(j["distinct"].as_array().into_iter().flatten().filter_map(|v| v.as_u64()));
        for s in j["samples"].as_array().into_iter().flatten() {
            if merged.samples.len() < 5 {
                merged.samples.push(s.as_str().unwrap_or("").to_string());
            }
        }
        violations.extend(j["found"].as_array().into_iter().flatten().cloned());
    }
    // a worker that died takes the module down with it
    if p.id == "G20" {
        for c in &crashed {
            violations.push(json!({"signature": "process-death", "detail": format!("the module aborted or hung the worker: {c}"), "trace": [], "config": "", "case_seed": c["case_seed"]}));
        }
    }
    let missing: Vec<&str> = p.need.iter().copied().filter(|s| !merged.states.contains_key(*s)).collect();
    violations.sort_by_key(|j| (j["trace"].as_array().map_or(0, |t| t.len()), j["config"].as_str().map_or(0, |t| t.len())));
    let mut replay = String::new();
    if let Some(v) = violations.first() {
        replay = format!("{work}/replay-{}.json", v["case_seed"].as_u64().unwrap_or(0));
        let doc = json!({"property": p.id, "tier": tier, "seed": base, "case_seed": v["case_seed"], "violation": v,
                         "reproduce": format!("{} replay {}", exe.display(), replay)});
        let _ = std::fs::write(&replay, serde_json::to_string_pretty(&doc).unwrap_or_default());
    }
    let evidence = json!({
        "property": p.id, "tier": tier, "seed": base, "level": p.level,
        "coverage": {
            "evaluations": merged.evaluations,
            "distinct_nontrivial": distinct.len(),
            "rule": p.rule,
            "samples": merged.samples,
            "events_observed": merged.events,
            "states_observed": merged.states,
            "probes_run": p.probes.len(),
            "known_findings_seen": known_seen,
            "workers_lost": crashed,
            "workers_out_of_time": out_of_time,
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations.len(),
        "violation_details": violations.iter().take(10).collect::<Vec<_>>(),
    });
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    if let Err(e) = std::fs::write(format!("{dir}/evidence/{}.json", p.id), serde_json::to_string_pretty(&evidence).unwrap_or_default()) {
        eprintln!("cannot write the evidence: {e}");
        return 2;
    }
    println!(
        "{} {}: {} cases, {} events, {} distinct behaviours, {:.1}s",
        p.id, tier, merged.evaluations, merged.events, distinct.len(), start.elapsed().as_secs_f64()
    );
    if let Some(v) = violations.first() {
        println!("{}: {}", v["signature"].as_str().unwrap_or(""), v["detail"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={}", p.id, replay);
        return 1;
    }
    if !crashed.is_empty() {
        eprintln!("inconclusive: {} worker(s) died or hung: {}", crashed.len(), json!(crashed));
        return 2;
    }
    if !missing.is_empty() || merged.evaluations == 0 {
        eprintln!("inconclusive: never observed {missing:?}");
        return 2;
    }
    0
}

fn replay() -> i32 {
    let path = std::env::args().nth(2).unwrap_or_default();
    let j: J = std::fs::read_to_string(&path).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
    let p = find(j["property"].as_str().unwrap_or(""));
    let Some(seed) = j["case_seed"].as_u64() else {
        let sig = j["violation"]["signature"].as_str().unwrap_or("");
        for (s, run) in p.probes {
            if sig == format!("probe:{s}") {
                println!("{s}: {:?}", run());
            }
        }
        return 0;
    };
    let mut cov = Cov::default();
    match run_case(p, &mut Rng::new(seed), &mut cov) {
        Ok(()) => println!("no violation"),
        Err(v) => println!("{}\n{}\n{}\n{}", v.signature, v.detail, v.trace.join("\n"), v.config),
    }
    0
}

fn main() {
    let _: BTreeMap<u8, u8> = BTreeMap::new();
    let code = match std::env::args().nth(1).as_deref() {
        Some("shard") => shard(),
        Some("check") => check(),
        Some("replay") => replay(),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: harness check|shard|replay|list");
            2
        }
    };
    std::process::exit(code);
}
