//! C14: the strategy decides which siblings are restarted with an ended child, in order.

use crate::sup::*;
use crate::util::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![groups(), temporary_sibling(), temporary_siblings(), failing_start(), concurrent(), storm()]
}

const STRATEGIES: [SupervisionStrategy; 3] = [SupervisionStrategy::OneForOne, SupervisionStrategy::OneForAll, SupervisionStrategy::RestForOne];
const IDS: [&str; 3] = ["a", "b", "c"];

fn group(s: usize, i: usize) -> Vec<usize> {
    match s {
        0 => vec![i],
        1 => (0..3).collect(),
        _ => (i..3).collect(),
    }
}

/// Restarted children: every old instance ended before the first new one started, new ones in order.
fn check_round(ctl: &Ctl, from: usize, group: &[usize], what: &str) {
    let log = ctl.log();
    let log = &log[from..];
    let first_start = log.iter().position(|l| matches!(l, L::Start(..))).unwrap_or(log.len());
    let starts: Vec<&str> = log.iter().filter_map(|l| if let L::Start(i, _) = l { Some(*i) } else { None }).collect();
    let ends: Vec<&str> = log.iter().filter_map(|l| if let L::End(i, _) = l { Some(*i) } else { None }).collect();
    let want: Vec<&str> = group.iter().map(|i| IDS[*i]).collect();
    check!(starts == want, "restart-set", "{}: started {:?}, expected {:?}", what, starts, want);
    let mut e = ends.clone();
    e.sort();
    check!(e == want, "restart-set", "{}: ended {:?}, expected {:?}", what, ends, want);
    check!(!log[first_start..].iter().any(|l| matches!(l, L::End(..))), "restart-order", "{}: {:?}", what, log);
}

/// Every strategy and child, siblings that end at once or take their time.
fn groups() -> Scenario {
    sc("groups", (1, 2), 27).run(|| {
        let ctl = Ctl::new();
        mc::settle();
        let sups: Vec<Pid> = Vec::new();
        drop(sups);
        mc::explore();
        let (s, i, k) = (mc::choose(3), mc::choose(3), mc::choose(3));
        let kind = [Kind::Plain, Kind::Trap(0), Kind::Trap(3)][k];
        let mut sup = Supervisor::new().strategy(STRATEGIES[s]);
        for id in IDS {
            sup = sup.add_child(ctl.spec(id, kind));
        }
        let pid = mc::quiet(|| start_sup(sup)).unwrap();
        let g = group(s, i);
        for round in 0..2 {
            let from = ctl.log().len();
            ctl.cmd(IDS[i], if round == 0 { Cmd::Panic } else { Cmd::Return });
            mc::settle_for(SEC);
            check_round(&ctl, from, &g, &format!("strategy {} child {} kind {:?}", s, i, kind));
        }
        check!(Process::alive(pid), "sup-died", "");
        for id in IDS {
            check!(ctl.running(id).len() == 1, "not-running", "{}", id);
        }
        ctl.check_single();
        no_stray_panics(&[]);
        mc::outcome((s, i, k));
    })
}

/// A temporary or finished sibling in the group is not brought back.
fn temporary_sibling() -> Scenario {
    sc("temporary-sibling", (1, 2), 12).run(|| {
        let ctl = Ctl::new();
        mc::settle();
        mc::explore();
        let (s, t, i) = (1 + mc::choose(2), mc::choose(3), mc::choose(2));
        // Child t is temporary, child i of the others ends.
        let others: Vec<usize> = (0..3).filter(|x| *x != t).collect();
        let i = others[i];
        let mut sup = Supervisor::new().strategy(STRATEGIES[s]);
        for (k, id) in IDS.into_iter().enumerate() {
            sup = sup.add_child(ctl.spec(id, Kind::Plain).restart(if k == t { Restart::Temporary } else { Restart::Permanent }));
        }
        let pid = mc::quiet(|| start_sup(sup)).unwrap();
        let g = group(s, i);
        ctl.cmd(IDS[i], Cmd::Panic);
        mc::settle();
        for (k, id) in IDS.into_iter().enumerate() {
            let r = ctl.running(id);
            let hit = g.contains(&k);
            if k == t && hit {
                check!(r.is_empty(), "temporary-restarted", "strategy {}: the temporary child {} was restarted when {} ended", s, k, i);
            } else {
                check!(r.len() == 1 && (r[0].0 != k) == hit, "restart-set", "strategy {}, {} ended: child {} {:?}", s, i, k, r);
            }
        }
        // The supervisor still works on the right children.
        let from = ctl.log().len();
        ctl.cmd(IDS[i], Cmd::Panic);
        mc::settle();
        let want: Vec<&str> = g.iter().filter(|k| **k != t).map(|k| IDS[*k]).collect();
        let starts: Vec<&str> = ctl.log()[from..].iter().filter_map(|l| if let L::Start(i, _) = l { Some(*i) } else { None }).collect();
        check!(starts == want, "restart-set", "second restart: started {:?}, expected {:?}", starts, want);
        check!(Process::alive(pid), "sup-died", "");
        ctl.check_single();
        no_stray_panics(&[]);
        mc::outcome((s, t, i));
    })
}

/// Any of five children are temporary, each permanent one ends twice.
fn temporary_siblings() -> Scenario {
    seq("temporary-siblings", 100).run(|| {
        const FIVE: [&str; 5] = ["a", "b", "c", "d", "e"];
        mc::settle();
        mc::explore();
        let (s, mask) = (mc::choose(3), mc::choose(32));
        let ctl = Ctl::new();
        let mut sup = Supervisor::new().strategy(STRATEGIES[s]).max_restarts(100);
        for (k, id) in FIVE.into_iter().enumerate() {
            sup = sup.add_child(ctl.spec(id, Kind::Plain).restart(if mask >> k & 1 == 1 { Restart::Temporary } else { Restart::Permanent }));
        }
        let pid = start_sup(sup).unwrap();
        let lasting: Vec<usize> = (0..5).filter(|k| mask >> k & 1 == 0).collect();
        let mut there: Vec<usize> = (0..5).collect();
        let mut trail = vec![];
        for _ in 0..2 {
            if lasting.is_empty() {
                return;
            }
            let i = lasting[mc::choose(lasting.len())];
            trail.push(i);
            let g: Vec<usize> = there.iter().copied().filter(|k| match s { 0 => *k == i, 1 => true, _ => *k >= i }).collect();
            let from = ctl.log().len();
            ctl.cmd(FIVE[i], Cmd::Panic);
            mc::settle();
            there.retain(|k| lasting.contains(k) || !g.contains(k));
            let want: Vec<&str> = g.iter().filter(|k| lasting.contains(k)).map(|k| FIVE[*k]).collect();
            let starts: Vec<&str> = ctl.log()[from..].iter().filter_map(|l| if let L::Start(i, _) = l { Some(*i) } else { None }).collect();
            check!(starts == want, "restart-set", "strategy {}, temporary {:05b}, ended {:?}: started {:?}, expected {:?}", s, mask, trail, starts, want);
            for (k, id) in FIVE.into_iter().enumerate() {
                check!(ctl.running(id).len() == there.contains(&k) as usize, "running", "strategy {}, temporary {:05b}, ended {:?}: {} {:?}", s, mask, trail, id, ctl.running(id));
            }
        }
        check!(Process::alive(pid), "sup-died", "");
        ctl.check_single();
        no_stray_panics(&[]);
        mc::outcome((s, mask, trail));
    })
}

/// Starting one of the group fails once or twice: in the end all of the group run, in order.
fn failing_start() -> Scenario {
    sc("failing-group", (1, 2), 20).run(|| {
        let ctl = Ctl::new();
        mc::settle();
        mc::explore();
        let (s, i, f, n) = (1 + mc::choose(2), mc::choose(3), mc::choose(3), 1 + mc::choose(2));
        let mut sup = Supervisor::new().strategy(STRATEGIES[s]).max_restarts(5);
        for id in IDS {
            sup = sup.add_child(ctl.spec(id, Kind::Plain));
        }
        let pid = mc::quiet(|| start_sup(sup)).unwrap();
        let g = group(s, i);
        for _ in 0..n {
            ctl.plan(IDS[f], Plan::Fail("no"));
        }
        ctl.cmd(IDS[i], Cmd::Panic);
        mc::settle();
        check!(Process::alive(pid), "sup-died", "");
        for (k, id) in IDS.into_iter().enumerate() {
            let r = ctl.running(id);
            let hit = g.contains(&k);
            check!(r.len() == 1 && (r[0].0 != k) == hit, "restart-set", "strategy {}, {} ended, {} failed {} times: child {} {:?} of {:?}", s, i, f, n, k, r, ctl.log());
        }
        if g.contains(&f) {
            let fails = ctl.log().iter().filter(|l| matches!(l, L::Fail(_))).count();
            check!(fails == n, "retry", "{} failing starts of {}", fails, n);
            // The last instances were started in order.
            let last: Vec<usize> = g.iter().map(|k| ctl.running(IDS[*k])[0].0).collect();
            check!(last.windows(2).all(|w| w[0] < w[1]), "restart-order", "{:?}", ctl.log());
        }
        ctl.check_single();
        no_stray_panics(&[]);
        mc::outcome((s, i, f, n));
    })
}

/// A second child ends while the group is being restarted.
fn concurrent() -> Scenario {
    sc("second-end", (2, 3), 6).run(|| {
        let ctl = Ctl::new();
        let tops: Vec<(Ctl, Pid)> = (0..3)
            .map(|s| {
                let ctl = Ctl::new();
                let mut sup = Supervisor::new().strategy(STRATEGIES[s]).max_restarts(5);
                for id in IDS {
                    sup = sup.add_child(ctl.spec(id, Kind::Plain));
                }
                let pid = start_sup(sup).unwrap();
                (ctl, pid)
            })
            .collect();
        drop(ctl);
        mc::settle();
        mc::explore();
        let (s, pair) = (mc::choose(3), mc::choose(3));
        let (i, j) = [(0, 1), (0, 2), (1, 2)][pair];
        let (ctl, pid) = &tops[s];
        ctl.cmd(IDS[i], Cmd::Panic);
        ctl.cmd(IDS[j], Cmd::ExitBad);
        mc::settle();
        check!(Process::alive(*pid), "sup-died", "strategy {}, {} and {} ended: {:?}", s, i, j, ctl.log());
        let (gi, gj) = (group(s, i), group(s, j));
        for (k, id) in IDS.into_iter().enumerate() {
            let r = ctl.running(id);
            let hit = gi.contains(&k) || gj.contains(&k);
            check!(r.len() == 1 && (r[0].0 != k) == hit, "restart-set", "strategy {}, {} and {} ended: child {} {:?} of {:?}", s, i, j, k, r, ctl.log());
        }
        ctl.check_single();
        no_stray_panics(&[]);
        mc::outcome((s, pair, ctl.log().len()));
    })
}

/// More ends, and failing starts, while the supervisor is busy with a slow restart: in the end each child runs once.
fn storm() -> Scenario {
    let depth = if thorough() { 4 } else { 3 };
    seq("storm", 1000).run(move || {
        mc::settle();
        mc::explore();
        let ctl = Ctl::new();
        let s = mc::choose(3);
        let slow = mc::choose(3);
        let sup = big(&ctl, s);
        let pid = start_sup(sup).unwrap();
        // The next start of one child takes its time, and may fail.
        let fails = mc::choose(2) == 1;
        ctl.plan(IDS[slow], if fails { Plan::SlowFail(10) } else { Plan::Slow(10) });
        let first = mc::choose(3);
        ctl.cmd(IDS[first], Cmd::Panic);
        mc::settle();
        let mut trail = vec![format!("strategy {}, start of {} slow, failing {}; {} ends", s, IDS[slow], fails, IDS[first])];
        for _ in 0..depth {
            match mc::choose(8) {
                0 => break,
                k @ 1..=3 => {
                    if !ctl.cmd(IDS[k - 1], [Cmd::Panic, Cmd::Return][trail.len() % 2]) {
                        return;
                    }
                    mc::settle();
                    trail.push(format!("{} ends", IDS[k - 1]));
                }
                k @ 4..=6 => {
                    ctl.plan(IDS[k - 4], if k % 2 == 0 { Plan::SlowFail(5) } else { Plan::Fail("no") });
                    trail.push(format!("a start of {} fails", IDS[k - 4]));
                }
                _ => {
                    mc::settle_for(7 * MS);
                    trail.push("later".into());
                }
            }
        }
        mc::settle_for(60 * SEC);
        ctl.clear_plans();
        ctl.check_single();
        check!(Process::alive(pid), "sup-died", "{:?}", trail);
        for id in IDS {
            check!(ctl.running(id).len() == 1, "not-running", "{:?}: {}: {:?}", trail, id, ctl.log());
        }
        let l = Agent::spawn("client").exec(move || which(pid)).unwrap().unwrap();
        let want: Vec<Info> = IDS.iter().map(|i| Info { id: i.to_string(), running: true, supervisor: false, restarting: false }).collect();
        check!(l == want, "children", "{:?}: {:?}", trail, l);
        // The supervisor has come to rest, and knows its children.
        for (i, id) in IDS.iter().enumerate() {
            let from = ctl.log().len();
            ctl.cmd(id, Cmd::Panic);
            mc::settle_for(60 * SEC);
            check_round(&ctl, from, &group(s, i), &format!("{:?}, then {}", trail, id));
        }
        no_stray_panics(&[]);
        mc::outcome(trail);
    })
}

fn big(ctl: &Ctl, s: usize) -> Supervisor {
    let mut sup = Supervisor::new().strategy(STRATEGIES[s]).max_restarts(1000);
    for id in IDS {
        sup = sup.add_child(ctl.spec(id, Kind::Plain));
    }
    sup
}
