//! Checks the properties of /verif/properties.jsonl against the parquet2 crate in /repo.
//!   harness check <ID>          explore; rewrites evidence/<ID>.json
//!   harness replay <ID> <file>  re-executes a recorded violation
#[macro_use]
mod engine;
mod fx;
mod model;
mod typed;
mod checks;

use engine::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static A: engine::Counting = engine::Counting;

fn root() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}
fn known(prop: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, rest) = l.split_once(' ')?;
            let rest = rest.strip_prefix("key=")?;
            let (k, d) = rest.split_once(" -- ")?;
            (p == prop).then(|| (k.to_string(), d.to_string()))
        })
        .collect()
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let prop = args.get(2).cloned().unwrap_or_default();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = root().join("out");
    let _ = std::fs::create_dir_all(&out);
    let replay_path = match std::env::var("MC_PART") {
        Ok(part) => out.join(format!("{prop}.{part}.replay")),
        Err(_) => out.join(format!("{prop}.replay")),
    };
    match cmd {
        "check" => {
            let code = check(&prop, thorough, seed, &replay_path);
            std::process::exit(code)
        }
        "replay" => {
            let text = std::fs::read_to_string(&args[3]).expect("replay file");
            let mut l = text.lines();
            let space = l.next().unwrap_or("").to_string();
            let choices: Vec<u32> =
                l.next().unwrap_or("").split_whitespace().map(|x| x.parse().unwrap()).collect();
            let rp = out.join(format!("{prop}.again"));
            for t in [thorough, true, false] {
                let sps = checks::spaces(&prop, t);
                if let Some(sp) = sps.spaces.iter().find(|s| s.name == space) {
                    install(&prop, rp.to_str().unwrap());
                    match replay(sp, choices) {
                        Some(f) => {
                            println!("reproduced [{}] {}", f.key, f.msg);
                            std::process::exit(1)
                        }
                        None => println!("not reproduced: the property held on this execution"),
                    }
                    return;
                }
            }
            println!("no such space");
            std::process::exit(2)
        }
        _ => {
            eprintln!("usage: harness check|replay ID [file]");
            std::process::exit(2)
        }
    }
}
fn check(prop: &str, thorough: bool, seed: i64, replay_path: &Path) -> i32 {
    let t0 = Instant::now();
    let budget = if thorough { 780 } else { 240 };
    let deadline = t0 + Duration::from_secs(budget);
    install(prop, replay_path.to_str().unwrap());
    let def = checks::spaces(prop, thorough);
    if def.spaces.is_empty() {
        eprintln!("no such property {prop}");
        return 2;
    }
    let only = std::env::var("MC_SPACE").ok();
    let kn = known(prop);
    let is_known = |f: &Fail| kn.iter().any(|(k, _)| *k == f.key);
    let hits: Mutex<BTreeMap<String, (u64, Violation)>> = Mutex::default();
    let mut reports = vec![];
    let mut violation = None;
    let n = def.spaces.len();
    for (i, sp) in def.spaces.iter().enumerate() {
        // no space may use up the time of the ones after it
        let now = Instant::now();
        let left = deadline.saturating_duration_since(now);
        let deadline = if n - i > 1 { now + left * 2 / (n - i) as u32 } else { deadline };
        let deadline = deadline.min(now + left);
        if only.as_ref().map(|o| o != sp.name).unwrap_or(false) {
            continue;
        }
        let (r, v) = explore(sp, deadline, &is_known, &hits);
        eprintln!(
            "{prop} {:40} executions={} transitions={} states={} depth={} exhaustive={} {:.1}s {:?}",
            r.name, r.executions, r.transitions, r.states, r.max_depth, r.exhaustive, r.wall, r.tallies
        );
        reports.push(r);
        if v.is_some() {
            violation = v;
            break;
        }
    }
    let hits = hits.into_inner().unwrap();
    for (k, d) in &kn {
        match hits.get(k) {
            Some((n, v)) => println!("KNOWN-FINDING: property={prop} {d} (seen in {n} executions; e.g. {})", v.msg.replace('\n', " ")),
            None => eprintln!("note: listed finding not observed in this run: {k}"),
        }
    }
    let execs: u64 = reports.iter().map(|r| r.executions).sum();
    let trans: u64 = reports.iter().map(|r| r.transitions).sum();
    let states: u64 = reports.iter().map(|r| r.states).sum();
    let exhaustive = reports.iter().all(|r| r.exhaustive) && violation.is_none();
    let per_space: Vec<_> = reports
        .iter()
        .map(|r| {
            serde_json::json!({"space": r.name, "executions": r.executions, "transitions": r.transitions,
                "distinct_states": r.states, "max_depth": r.max_depth, "exhaustive": r.exhaustive,
                "classes": r.tallies, "wall_s": r.wall})
        })
        .collect();
    let samples: Vec<_> = reports
        .iter()
        .flat_map(|r| r.samples.iter().map(move |s| format!("{}: {}", r.name, s)))
        .collect();
    let ev = serde_json::json!({
        "property": prop,
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": trans,
            "traces_validated_against_impl": execs,
            "samples": samples,
            "exhaustive": exhaustive,
            "rule": def.rule,
            "spaces": per_space,
        },
        "assumptions": def.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violation.is_some() as u32,
    });
    // runs of other builds of the crate: their spaces are listed in the evidence of the main run
    let part_path = |part: &str| root().join("out").join(format!("{prop}.part.{part}.json"));
    let part = std::env::var("MC_PART").ok();
    let mut ev = ev;
    if part.is_none() {
        for (part, name) in [("flex", "spaces_with_feature_lz4_flex"), ("bare", "spaces_without_any_codec")] {
            if let Some(p) = std::fs::read_to_string(part_path(part)).ok().and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok()) {
                let c = &mut ev["coverage"];
                for k in ["states", "transitions", "traces_validated_against_impl"] {
                    c[k] = (c[k].as_u64().unwrap_or(0) + p["coverage"][k].as_u64().unwrap_or(0)).into();
                }
                c["exhaustive"] = (c["exhaustive"] == true && p["coverage"]["exhaustive"] == true).into();
                c[name] = p["coverage"]["spaces"].clone();
            }
        }
    }
    let evdir = root().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(if let Some(part) = &part { part_path(part) } else { evdir.join(format!("{prop}.json")) }, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    if let Some(v) = violation {
        let ch: Vec<String> = v.choices.iter().map(|x| x.to_string()).collect();
        let _ = std::fs::write(replay_path, format!("{}\n{}\n[{}] {}\n", v.space, ch.join(" "), v.key, v.msg));
        let mut m = v.msg.clone();
        if m.len() > 1500 {
            let mut k = 1500;
            while !m.is_char_boundary(k) { k -= 1 }
            m.truncate(k);
        }
        println!("[{}] {} ({})", v.key, m, v.space);
        println!("VIOLATION property={prop} replay={}", replay_path.display());
        return 1;
    }
    if execs == 0 {
        eprintln!("nothing explored");
        return 2;
    }
    println!("OK property={prop} executions={execs} transitions={trans} states={states} exhaustive={exhaustive} wall={:.1}s", t0.elapsed().as_secs_f64());
    0
}
