//! C15: a supervisor gives up exactly if there are more restarts than allowed within the time frame.

use crate::sup::*;
use crate::util::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![history(), forever(), frames(), failing(), late_retry()]
}

/// Every history of waits and child ends.
fn history() -> Scenario {
    let depth = if thorough() { 8 } else { 6 };
    seq("histories", 100).run(move || {
        mc::settle();
        mc::explore();
        let max = mc::choose(4);
        let strategy = [SupervisionStrategy::OneForOne, SupervisionStrategy::OneForAll][mc::choose(2)];
        let who = mc::choose(3);
        let ctl = Ctl::new();
        let sup = Supervisor::new()
            .strategy(strategy)
            .max_restarts(max)
            .max_duration(ms(1000))
            .add_child(ctl.spec("a", Kind::Plain))
            .add_child(ctl.spec("t", Kind::Plain).restart(Restart::Transient));
        let pid = start_sup(sup).unwrap();
        let end = watch_end(pid);
        let mut at: Vec<u64> = Vec::new();
        let mut trail = vec![];
        for n in 0..depth {
            // No two ends lie exactly the time frame apart.
            let wait = [0, 400, 700, 1001][if n == 0 { 0 } else { mc::choose(4) }];
            trail.push(wait);
            mc::settle_for(wait * MS);
            let now = mc::now() / MS;
            if [n % 2 == 0, true, false][who] {
                ctl.cmd("a", Cmd::Panic);
            } else {
                ctl.cmd("t", Cmd::ExitBad);
            }
            at.push(now);
            mc::settle();
            let recent = at.iter().filter(|t| now - **t <= 1000).count();
            let up = Process::alive(pid);
            check!(up == (recent <= max), "intensity", "at most {} restarts in 1000 ms, after {:?} (restarts at {:?}): supervisor alive {}", max, trail, at, up);
            if !up {
                check!(end.get() == vec![ExitR::from("shutdown")], "give-up-reason", "{:?}", end.get());
                check!(!ctl.any_running(), "give-up-orphan", "children still run: {:?}", ctl.log());
                break;
            }
            check!(ctl.running("a").len() == 1 && ctl.running("t").len() == 1, "not-restarted", "after {:?}", trail);
        }
        no_stray_panics(&[]);
        mc::outcome((max, who, trail));
    })
}

/// Every time frame, and the default (three restarts in five seconds): restarts just within and just beyond.
fn frames() -> Scenario {
    seq("frames", 60).run(|| {
        mc::settle();
        mc::explore();
        let i = mc::choose(SPANS.len() + 1);
        let d = SPANS.get(i).copied().unwrap_or(5000);
        let within = mc::choose(2) == 1;
        let max = if i == SPANS.len() { 3 } else { [1, 5, 12][mc::choose(3)] };
        let ctl = Ctl::new();
        let mut sup = Supervisor::new().add_child(ctl.spec("a", Kind::Plain));
        if i < SPANS.len() {
            sup = sup.max_restarts(max).max_duration(ms(d));
        }
        let pid = start_sup(sup).unwrap();
        let end = watch_end(pid);
        for n in 0..max {
            ctl.cmd("a", Cmd::Panic);
            mc::settle();
            check!(Process::alive(pid), "intensity", "gave up after {} of {} restarts in {} ms", n + 1, max, d);
        }
        // One more: all of them lie within the frame, or those before do not.
        mc::settle_for(if within { d - 1 } else { d + 1 } * MS);
        ctl.cmd("a", Cmd::Panic);
        mc::settle();
        check!(Process::alive(pid) != within, "intensity", "{} restarts, and one more {} ms later: frame {} ms, supervisor alive {}", max, if within { d - 1 } else { d + 1 }, d, Process::alive(pid));
        if within {
            check!(end.get() == vec![ExitR::from("shutdown")], "give-up-reason", "{:?}", end.get());
            check!(!ctl.any_running(), "give-up-orphan", "children still run: {:?}", ctl.log());
        } else {
            check!(ctl.running("a").len() == 1, "not-restarted", "{:?}", ctl.log());
        }
        no_stray_panics(&[]);
        mc::outcome((i, within, max));
    })
}

/// Very long time frames count everything.
fn forever() -> Scenario {
    seq("long-frame", 2).run(|| {
        mc::settle();
        mc::explore();
        let d = [Duration::from_secs(86400 * 365), Duration::MAX][mc::choose(2)];
        let ctl = Ctl::new();
        let sup = Supervisor::new().max_restarts(2).max_duration(d).add_child(ctl.spec("a", Kind::Plain));
        let pid = start_sup(sup).unwrap();
        let end = watch_end(pid);
        for n in 1..=3 {
            mc::settle_for(10 * SEC);
            ctl.cmd("a", Cmd::Panic);
            mc::settle();
            check!(Process::alive(pid) == (n <= 2), "intensity", "frame {:?}, after {} restarts of 2: alive {}", d, n, Process::alive(pid));
        }
        check!(end.get() == vec![ExitR::from("shutdown")], "give-up-reason", "{:?}", end.get());
        check!(!ctl.any_running(), "give-up-orphan", "");
        no_stray_panics(&[]);
        mc::outcome(d);
    })
}

/// Failing attempts to restart count as well.
fn failing() -> Scenario {
    sc("failing-attempts", (1, 2), 12).run(|| {
        mc::settle();
        mc::explore();
        let (max, fails, strategy) = (mc::choose(3), mc::choose(4), mc::choose(3));
        let strategy = [SupervisionStrategy::OneForOne, SupervisionStrategy::OneForAll, SupervisionStrategy::RestForOne][strategy];
        let ctl = Ctl::new();
        let sup = Supervisor::new()
            .strategy(strategy)
            .max_restarts(max)
            .add_child(ctl.spec("b", Kind::Plain))
            .add_child(ctl.spec("a", Kind::Plain))
            .add_child(ctl.spec("c", Kind::Plain));
        let pid = mc::quiet(|| start_sup(sup)).unwrap();
        let end = watch_end(pid);
        for _ in 0..fails {
            ctl.plan("a", Plan::Fail("no"));
        }
        ctl.cmd("a", Cmd::Panic);
        mc::settle();
        // The end itself and every failing attempt ask for one restart each.
        let up = fails + 1 <= max;
        check!(Process::alive(pid) == up, "intensity", "{} failing restarts of at most {}: supervisor alive {}", fails, max, Process::alive(pid));
        if up {
            check!(ctl.running("a").len() == 1, "not-restarted", "");
        } else {
            check!(end.get() == vec![ExitR::from("shutdown")] && !ctl.any_running(), "give-up-orphan", "{:?}", end.get());
        }
        no_stray_panics(&[]);
        mc::outcome((max, fails, up, format!("{:?}", strategy)));
    })
}

/// A retry that has become moot does not count.
fn late_retry() -> Scenario {
    sc("moot-retry", (2, 3), 2).run(|| {
        let ctl = Ctl::new();
        let gate = Gate::new();
        let sup = Supervisor::new().max_restarts(1).add_child(ctl.spec("a", Kind::Plain)).add_child(ctl.spec("b", Kind::Plain));
        let pid = start_sup(sup).unwrap();
        let done = Shared::new(None);
        {
            let (gate, done) = (gate.clone(), done.clone());
            proc("client", async move {
                gate.wait().await;
                done.set(Some(Supervisor::terminate_child(pid, "a").await.is_ok()));
            });
        }
        ctl.plan("a", Plan::Fail("no"));
        mc::settle();
        mc::explore();
        gate.open();
        ctl.cmd("a", Cmd::Panic);
        mc::settle();
        let fails = ctl.log().iter().filter(|l| matches!(l, L::Fail(_))).count();
        let starts = ctl.log().iter().filter(|l| matches!(l, L::Start("a", _))).count();
        // One restart was asked for by the end. A second one is asked for by its failure, unless the
        // child was terminated before that.
        let up = Process::alive(pid);
        if done.get() == Some(true) && starts == 1 {
            check!(up, "intensity", "a moot retry counted as a restart: {:?}", ctl.log());
            check!(ctl.running("b").len() == 1, "bystander", "");
        }
        if !up {
            check!(!ctl.any_running(), "give-up-orphan", "");
        }
        no_stray_panics(&[]);
        mc::outcome((fails, starts, up, done.get()));
    })
}
