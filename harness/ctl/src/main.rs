#![allow(dead_code)]
mod engine;
mod model;
mod msgpack;
mod props;
mod wire;
mod world;
use serde_json::json;
use std::time::{Duration, Instant};

const BIN: &str = "/verif/build/app-target/x86_64-unknown-linux-gnu/debug/procstar";

fn known() -> Vec<serde_json::Value> {
    std::fs::read_to_string("/verif/known_findings.json").ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok())
        .and_then(|j| j["findings"].as_array().cloned()).unwrap_or_default()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| if std::env::var("PX_PANIC").is_ok() { eprintln!("{i}"); }));
    unsafe { libc::signal(libc::SIGPIPE, libc::SIG_IGN); }
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => for s in props::scenarios(&args[2], args.get(3).map(|s| s.as_str()).unwrap_or("quick")) { println!("{} (bound {})", s.name, s.bound); },
        Some("run") => {
            // run PROP TIER NAME [choices]
            let scns = props::scenarios(&args[2], &args[3]);
            let s = scns.iter().find(|s| s.name == args[4]).expect("no such scenario");
            let ch: Vec<u32> = args.get(5).map(|c| c.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
            let mut srv = engine::Servers::new(BIN, &format!("/tmp/px-{}-r", std::process::id()));
            let o = engine::run_one(&mut srv, s, &ch, true);
            for l in &o.log { println!("{l}"); }
            println!("choices: {:?}", o.trace.iter().map(|d| d.took).collect::<Vec<_>>());
            println!("result: {:?}", o.result);
        }
        Some("replay") => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let scns = props::scenarios(j["property"].as_str().unwrap(), j["tier"].as_str().unwrap());
            let s = scns.iter().find(|s| s.name == j["scenario"].as_str().unwrap()).expect("no such scenario");
            let ch: Vec<u32> = j["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
            let mut srv = engine::Servers::new(BIN, &format!("/tmp/px-{}-r", std::process::id()));
            let o = engine::run_one(&mut srv, s, &ch, true);
            for l in &o.log { println!("{l}"); }
            println!("result: {:?}", o.result);
            std::process::exit(o.result.is_err() as i32);
        }
        Some("check") => {
            let prop = &args[2];
            let tier = args.get(3).cloned().unwrap_or("quick".into());
            let t0 = Instant::now();
            let only = args.get(4).cloned();
            let scns: Vec<_> = props::scenarios(prop, &tier).into_iter().filter(|s| only.as_ref().map(|o| s.name.starts_with(o.as_str())).unwrap_or(true)).collect();
            if scns.is_empty() { eprintln!("no scenarios for {prop}"); std::process::exit(2); }
            let cap = if tier == "quick" { 420 } else { 840 };
            let nscn = scns.len();
            let sum = engine::explore(scns, BIN, std::env::var("PX_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8), Duration::from_secs(cap), 6);
            let kn = known();
            let mut bad = 0; let mut hit = vec![];
            let _ = std::fs::create_dir_all("/verif/evidence/replays");
            let mut viol = vec![];
            for f in &sum.found {
                let sig = format!("{}|{}", f.scn.split('#').next().unwrap(), engine::signature(&f.msg));
                if let Some(k) = kn.iter().find(|k| k["property"] == **prop && k["signature"].as_str().map(|s| s == sig).unwrap_or(false)) { hit.push(k.clone()); continue; }
                bad += 1;
                let path = format!("/verif/evidence/replays/{prop}-{}.json", bad);
                std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": prop, "tier": tier, "scenario": f.scn, "choices": f.choices, "message": f.msg, "signature": sig})).unwrap()).unwrap();
                println!("{}: {}", f.scn, f.msg);
                println!("VIOLATION property={prop} replay={path}");
                viol.push(json!({"scenario": f.scn, "message": f.msg, "replay": path}));
            }
            for k in kn.iter().filter(|k| k["property"] == **prop) { if hit.iter().any(|h| h == k) || true { println!("KNOWN-FINDING: property={prop} {}", k["what"].as_str().unwrap_or("")); } }
            for f in &sum.unconfirmed { eprintln!("not reproduced: {}: {}", f.scn, f.msg); }
            let ev = json!({
                "property": prop, "tier": tier, "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1), "level": "model_checking",
                "coverage": {
                    "states": sum.states, "transitions": sum.steps, "traces_validated_against_impl": sum.execs, "samples": sum.samples,
                    "decisions": sum.choices, "longest_schedule": sum.maxdepth, "exhaustive_within_bounds": sum.complete, "scenario_variants": nscn,
                    "bounds": "every choice sequence of each scenario whose deviations from the default schedule cost at most the scenario's deviation_bound",
                    "how_bound": "there is no separate model of the program: every execution runs the real procstar binary, built from /repo/src, with its system calls answered by the explorer",
                    "scenarios": sum.per.iter().map(|(k, v)| json!({"name": k, "executions": v.0, "deviation_bound": v.1})).collect::<Vec<_>>(),
                    "decision_kinds": sum.labels,
                },
                "violations": viol, "known_findings_seen": hit, "unconfirmed": sum.unconfirmed.iter().map(|f| json!({"scenario": f.scn, "message": f.msg, "choices": f.choices})).collect::<Vec<_>>(),
                "wall_s": t0.elapsed().as_secs_f64(),
            });
            let out = std::env::var("PX_EVIDENCE").unwrap_or(format!("/verif/evidence/{prop}.json"));
            std::fs::write(out, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
            println!("{prop} {tier}: {} executions of {} scenarios, {} states, {} actions, {:.1} s{}", sum.execs, nscn, sum.states, sum.steps, t0.elapsed().as_secs_f64(), if sum.complete { "" } else { " (not complete)" });
            std::process::exit(if bad > 0 { 1 } else { 0 });
        }
        _ => { eprintln!("usage: ctl check|run|replay|list ..."); std::process::exit(2); }
    }
}
