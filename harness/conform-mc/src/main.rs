//! Compares what the real libraries were seen doing (the file written by `conform`) with everything the
//! engine explores: each outcome seen has to be among the explored ones, and a program with one outcome
//! has exactly that one on both sides.
#[path = "../../conform/src/programs.rs"]
mod programs;
use mc::{Config, Scenario};

fn main() {
    let file = std::env::args().nth(1).expect("the outcomes of the real libraries");
    let only = std::env::args().nth(2);
    let real: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let mut bad = 0;
    let (mut total, mut explored) = (0, 0);
    for (name, exact, f) in programs::programs() {
        if only.as_ref().is_some_and(|o| o != name) {
            continue;
        }
        let sc = Scenario {
            name: name.to_string(),
            cfg: Config { max_steps: 200_000, ..Config::default() },
            dev: if exact { (2, 2) } else { (5, 5) },
            secs: (30.0, 30.0),
            min_outcomes: 1,
            run: Box::new(move || {
                mc::settle();
                mc::explore();
                let task = tokio::spawn(f());
                mc::outcome(mc::block_on(task).unwrap());
            }),
        };
        let rep = mc::explore_scenario(&sc, false, 8, &|_, _| None);
        let seen = real[name].as_object().unwrap();
        let mut what = vec![];
        if let Some(e) = &rep.error {
            what.push(format!("error {}", e));
        }
        if let Some(v) = &rep.violation {
            what.push(format!("violation {} {}", v.key, v.msg));
        }
        for s in seen.keys() {
            if !rep.outcomes.contains(&mc::mix(0, mc::hash_str(&format!("{:?}", s)))) {
                what.push(format!("really seen but not explored: {}", s));
            }
        }
        if exact && (rep.outcomes.len() != 1 || seen.len() != 1) {
            what.push(format!("{} explored and {} seen outcomes of a program with one", rep.outcomes.len(), seen.len()));
        }
        total += rep.executions;
        explored += rep.outcomes.len();
        println!(
            "{} {}: {} seen, {} explored outcomes, {} executions, deviations {}{} {}",
            if what.is_empty() { "ok " } else { "BAD" },
            name,
            seen.len(),
            rep.outcomes.len(),
            rep.executions,
            rep.completed_dev,
            if rep.exhausted { " (all)" } else { "" },
            what.join("; ")
        );
        bad += !what.is_empty() as u32;
    }
    println!("{} executions, {} outcomes explored, {} programs disagree", total, explored, bad);
    std::process::exit((bad > 0) as i32);
}
