//! Model checking of the hydra crates: every property is decided by exhaustively exploring the
//! executions of the real code under a controlled scheduler (see /verif/DESIGN.md).

#![allow(clippy::all)]

mod srv;
mod sup;
mod dist;
mod util;
mod props;

use mc::{Entry, Report, Scenario};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};

struct Known {
    property: String,
    scenario: String,
    key: String,
    contains: String,
    what: String,
}

/// Lines of the form `finding: property=C01 scenario=<name|*> key=<key> contains=<text> what=<text>`.
fn load_known(path: &Path) -> Vec<Known> {
    let mut out = Vec::new();
    let Ok(text) = std::fs::read_to_string(path) else { return out };
    for line in text.lines() {
        let Some(rest) = line.trim().strip_prefix("finding:") else { continue };
        let mut pos: Vec<(usize, &str)> = Vec::new();
        for f in ["property=", "scenario=", "key=", "contains=", "what="] {
            let p = rest.find(f).unwrap_or_else(|| panic!("known-findings: no {} in {}", f, line));
            pos.push((p, f));
        }
        let field = |i: usize| -> String {
            let s = pos[i].0 + pos[i].1.len();
            let e = if i + 1 < pos.len() { pos[i + 1].0 } else { rest.len() };
            rest[s..e].trim().to_string()
        };
        out.push(Known {
            property: field(0),
            scenario: field(1),
            key: field(2),
            contains: field(3),
            what: field(4),
        });
    }
    out
}

fn entries_to_json(v: &[Entry]) -> Value {
    Value::Array(v.iter().map(|e| json!([e.c, e.n, e.cost, e.site])).collect())
}

fn entries_from_json(v: &Value) -> Vec<Entry> {
    v.as_array()
        .expect("choices")
        .iter()
        .map(|e| Entry {
            c: e[0].as_u64().unwrap() as u8,
            n: e[1].as_u64().unwrap() as u8,
            cost: e[2].as_u64().unwrap() as u8,
            pad: 0,
            site: e[3].as_u64().unwrap() as u32,
        })
        .collect()
}

fn usage() -> ! {
    eprintln!("usage: mccheck <property> [--thorough] [--only SCENARIO] [--dev N] [--secs S] [--root DIR] [-v]");
    eprintln!("       mccheck --replay FILE");
    eprintln!("       mccheck --list");
    std::process::exit(2);
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut prop = String::new();
    let mut thorough = false;
    let mut only: Option<String> = None;
    let mut dev: Option<u32> = None;
    let mut secs: Option<f64> = None;
    let mut root = PathBuf::from("/verif");
    let mut replay: Option<String> = None;
    let mut verbose = false;
    let mut list = false;
    let mut jobs = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let mut i = 0;
    while i < args.len() {
        let val = |i: &mut usize| -> String {
            *i += 1;
            args.get(*i).cloned().unwrap_or_else(|| usage())
        };
        match args[i].as_str() {
            "--thorough" => thorough = true,
            "--only" => only = Some(val(&mut i)),
            "--dev" => dev = Some(val(&mut i).parse().unwrap()),
            "--secs" => secs = Some(val(&mut i).parse().unwrap()),
            "--root" => root = PathBuf::from(val(&mut i)),
            "--jobs" => jobs = val(&mut i).parse().unwrap(),
            "--replay" => replay = Some(val(&mut i)),
            "--list" => list = true,
            "-v" => verbose = true,
            p if !p.starts_with('-') => prop = p.to_string(),
            _ => usage(),
        }
        i += 1;
    }

    if list {
        for p in props::ids() {
            for s in props::scenarios(p) {
                println!("{} {} dev={:?} secs={:?}", p, s.name, s.dev, s.secs);
            }
        }
        return;
    }

    if let Some(file) = replay {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&file).expect("replay file")).expect("json");
        let p = v["property"].as_str().unwrap();
        let name = v["scenario"].as_str().unwrap();
        util::set_thorough(v["thorough"].as_bool().unwrap_or(false));
        let choices = entries_from_json(&v["choices"]);
        let sc = props::scenarios(p)
            .into_iter()
            .find(|s| s.name == name)
            .expect("scenario of the replay file");
        match mc::replay(&sc, &choices, true) {
            Ok((st, k, m)) => {
                println!("{} {} {}", mc::status_name(st), k, m);
                if st == 2 || st == 5 {
                    println!("VIOLATION property={} replay={}", p, file);
                    std::process::exit(1);
                }
            }
            Err(e) => {
                println!("replay failed: {}", e);
                std::process::exit(3);
            }
        }
        return;
    }

    if !props::ids().contains(&prop.as_str()) {
        usage();
    }
    util::set_thorough(thorough);
    let known = load_known(&root.join("known-findings.txt"));
    let t0 = mc::real_now();
    let mut reports: Vec<Report> = Vec::new();
    let mut hits: std::collections::BTreeMap<String, u64> = Default::default();
    let mut failed = false;
    let mut broken = false;
    let mut violations: Vec<Value> = Vec::new();

    for mut sc in props::scenarios(&prop) {
        if let Some(o) = &only {
            if !sc.name.contains(o.as_str()) {
                continue;
            }
        }
        if let Some(d) = dev {
            sc.dev = (d, d);
        }
        if let Some(s) = secs {
            sc.secs = (s, s);
        }
        let name = sc.name.clone();
        let f = |key: &str, msg: &str| -> Option<String> {
            known
                .iter()
                .find(|k| {
                    k.property == prop
                        && (k.scenario == "*" || k.scenario == name)
                        && k.key == key
                        && (k.contains.is_empty() || k.contains == "*" || msg.contains(&k.contains))
                })
                .map(|k| k.what.clone())
        };
        let rep = mc::explore_scenario(&sc, thorough, jobs, &f);
        println!(
            "{} {}: {} executions ({} cut), {} states, {} transitions, {} outcomes, deviations {} {}{}, {:.1}s",
            prop,
            sc.name,
            rep.executions,
            rep.pruned,
            rep.states,
            rep.transitions,
            rep.outcomes.len(),
            rep.completed_dev,
            if rep.exhausted { "(all)" } else { "" },
            if rep.per_level.last().map(|l| !l.1).unwrap_or(false) { " + partial level" } else { "" },
            rep.secs
        );
        if verbose {
            println!("    levels {:?} max choices {} max steps {}", rep.per_level, rep.max_choices, rep.max_steps);
            for s in &rep.sample_choices {
                println!("    {}", s);
            }
        }
        for (w, n) in &rep.known {
            *hits.entry(w.clone()).or_insert(0) += n.0;
            if verbose {
                println!("    known finding in {} executions: {}", n.0, n.1);
            }
        }
        if let Some(v) = &rep.violation {
            failed = true;
            let dir = root.join("evidence/replay");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}.json", prop, sc.name));
            let doc = json!({
                "property": prop, "scenario": sc.name, "thorough": thorough, "key": v.key, "message": v.msg,
                "deviations": v.deviations, "choices": entries_to_json(&v.choices),
            });
            std::fs::write(&path, doc.to_string()).expect("replay file");
            println!("  {}: {}", v.key, v.msg);
            println!("VIOLATION property={} replay={}", prop, path.display());
            violations.push(json!({"scenario": sc.name, "key": v.key, "message": v.msg, "replay": path.to_string_lossy()}));
        } else if let Some(e) = &rep.error {
            broken = true;
            println!("  ERROR in {}: {}", sc.name, e);
        } else if rep.completed_dev < 0 {
            broken = true;
            println!("  ERROR in {}: not even the default schedules were completed", sc.name);
        } else if rep.outcomes.len() < sc.min_outcomes && rep.known.is_empty() && rep.completed_dev >= sc.dev.0 as i64 {
            broken = true;
            println!("  ERROR in {}: only {} distinct outcomes, expected {}", sc.name, rep.outcomes.len(), sc.min_outcomes);
        }
        reports.push(rep);
        if failed {
            break;
        }
    }
    for k in known.iter().filter(|k| k.property == prop) {
        // The listed findings are part of the tree as it is.
        println!(
            "KNOWN-FINDING: property={} {} (seen in {} executions of this run)",
            prop,
            k.what,
            hits.get(&k.what).copied().unwrap_or(0)
        );
    }

    let wall = mc::real_now() - t0;
    write_evidence(&root, &prop, thorough, &reports, &violations, &hits, wall);
    if failed {
        std::process::exit(1);
    }
    if broken {
        std::process::exit(3);
    }
    println!("{}: held on everything explored ({:.1}s)", prop, wall);
}

fn write_evidence(
    root: &Path,
    prop: &str,
    thorough: bool,
    reports: &[Report],
    violations: &[Value],
    hits: &std::collections::BTreeMap<String, u64>,
    wall: f64,
) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let sum = |f: &dyn Fn(&Report) -> u64| reports.iter().map(f).sum::<u64>();
    let scen: Vec<Value> = reports
        .iter()
        .map(|r| {
            json!({
                "scenario": r.name,
                "executions": r.executions,
                "executions_cut_at_known_state": r.pruned,
                "states": r.states,
                "transitions": r.transitions,
                "distinct_outcomes": r.outcomes.len(),
                "deviation_bound_completed": r.completed_dev,
                "all_behaviours_of_scenario": r.exhausted,
                "executions_per_deviation_level": r.per_level.iter().map(|(n, c)| json!({"executions": n, "complete": c})).collect::<Vec<_>>(),
                "longest_choice_list": r.max_choices,
                "longest_execution_steps": r.max_steps,
                "seconds": (r.secs * 10.0).round() / 10.0,
                "known_findings": r.known.iter().map(|(k, v)| json!({"what": k, "executions": v.0})).collect::<Vec<_>>(),
            })
        })
        .collect();
    let mut samples: Vec<Value> = Vec::new();
    for r in reports {
        for s in r.sample_choices.iter().take(1) {
            samples.push(json!(format!("{}: {}", r.name, s)));
        }
    }
    let ev = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": props::level(prop),
        "coverage": {
            "states": sum(&|r| r.states),
            "transitions": sum(&|r| r.transitions),
            "schedules": sum(&|r| r.executions),
            "traces_validated_against_impl": sum(&|r| r.executions),
            "exhaustive": reports.iter().all(|r| r.per_level.iter().all(|l| l.1)),
            "evaluations": sum(&|r| r.executions),
            "distinct_nontrivial": reports.iter().map(|r| r.outcomes.len() as u64).sum::<u64>(),
            "rule": "an execution of the real code; distinct = different outcome record (results and event order observed by the scenario)",
            "samples": samples,
            "scenarios": scen,
        },
        "assumptions": props::assumptions(prop),
        "wall_s": (wall * 10.0).round() / 10.0,
        "violations": violations.len(),
        "violation_list": violations,
        "known_findings": hits.keys().collect::<Vec<_>>(),
    });
    let dir = root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", prop)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
}
