//! C17: a supervisor that ends, or fails to start, ends its children one by one, last started first,
//! each as its specification says, and leaves none behind.

use crate::sup::*;
use crate::util::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![modes(), matrix(), failing_init(), racing_end(), nested(), dynamic(), one(), durations()]
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum Mode {
    Default,
    Brutal,
    Timeout(u64),
    Infinity,
}

impl Mode {
    fn set(self, s: ChildSpec) -> ChildSpec {
        match self {
            Mode::Default => s,
            Mode::Brutal => s.shutdown(Shutdown::BrutalKill),
            Mode::Timeout(t) => s.shutdown(ms(t)),
            Mode::Infinity => s.shutdown(Shutdown::Infinity),
        }
    }
    /// When the child has ended, and whether it was asked before. `None`: never.
    fn end(self, kind: Kind, supervisor: bool) -> Option<(u64, bool)> {
        let limit = match self {
            Mode::Brutal => return Some((0, false)),
            Mode::Default if supervisor => u64::MAX,
            Mode::Default => 5000,
            Mode::Timeout(t) => t,
            Mode::Infinity => u64::MAX,
        };
        match kind {
            Kind::Plain => Some((0, false)),
            Kind::Trap(t) => Some((t.min(limit), true)),
            Kind::Stubborn if limit == u64::MAX => None,
            Kind::Stubborn => Some((limit, true)),
        }
    }
}

/// A supervisor linked to a parent process: the parent, the supervisor, its end.
fn below(s: Supervisor) -> (Agent, Pid, Shared<Vec<ExitR>>) {
    let parent = Agent::spawn("parent");
    let pid = parent.exec(move || async move { s.start_link(SupervisorOptions::new()).await.unwrap() }).unwrap();
    let end = watch_end(pid);
    (parent, pid, end)
}

/// Every time a child may be given.
fn durations() -> Scenario {
    seq("durations", 50).run(|| {
        mc::settle();
        mc::explore();
        let (i, late, how) = (mc::choose(SPANS.len()), mc::choose(2) == 1, mc::choose(2));
        let d = SPANS[i];
        let need = if late { d + 1 } else { d - 1 };
        let ctl = Ctl::new();
        let kind = if late && d % 2 == 0 { Kind::Stubborn } else { Kind::Trap(need) };
        let sup = Supervisor::new().add_child(ctl.spec("a", Kind::Trap(0))).add_child(ctl.spec("b", kind).shutdown(ms(d)));
        let (parent, pid, end) = below(sup);
        if how == 0 {
            parent.panic();
        } else {
            proc("client", async move {
                let _ = Supervisor::terminate_child(pid, "b").await;
            });
        }
        let t = need.min(d);
        if t > 0 {
            mc::settle_for((t - 1) * MS);
            check!(ctl.running("b").len() == 1 && ctl.running("a").len() == 1, "shutdown-early", "{} ms, way {}: {:?}", d, how, ctl.log());
            mc::settle_for(MS);
        }
        mc::settle();
        check!(ctl.running("b").is_empty(), "shutdown-late", "{} ms, way {}: {:?}", d, how, ctl.log());
        check!(ctl.running("a").len() == how, "shutdown-order", "{} ms, way {}: {:?}", d, how, ctl.log());
        if how == 0 {
            check!(end.get() == vec![ExitR::from("boom")], "end-reason", "{:?}", end.get());
        }
        no_stray_panics(&[]);
        mc::outcome((i, late, how));
    })
}

/// All kinds and modes of one child between two others, with exact times.
fn matrix() -> Scenario {
    seq("matrix", 100).run(|| {
        mc::settle();
        mc::explore();
        let kinds = [Kind::Plain, Kind::Trap(0), Kind::Trap(300), Kind::Trap(7000), Kind::Stubborn];
        let modes = [Mode::Default, Mode::Brutal, Mode::Timeout(0), Mode::Timeout(1000), Mode::Timeout(8000), Mode::Infinity];
        let (k1, k2) = (kinds[mc::choose(5)], kinds[mc::choose(5)]);
        let (m1, m2) = (modes[mc::choose(6)], modes[mc::choose(6)]);
        let sup2 = mc::choose(2) == 1;
        let ctl = Ctl::new();
        let mut spec2 = m2.set(ctl.spec("c", k2));
        if sup2 {
            spec2 = spec2.child_type(ChildType::Supervisor);
        }
        let sup = Supervisor::new().add_child(ctl.spec("a", Kind::Trap(0))).add_child(m1.set(ctl.spec("b", k1))).add_child(spec2);
        let (parent, pid, end) = below(sup);
        let from = ctl.log().len();
        let t0 = mc::now();
        parent.panic();
        let (e2, e1) = (m2.end(k2, sup2), m1.end(k1, false));
        let what = format!("c {:?} {:?} supervisor {}, b {:?} {:?}", k2, m2, sup2, k1, m1);
        // Expected log, times relative to t0.
        let mut want = vec![];
        let mut t = Some(0);
        for (id, n, e) in [("c", 2, e2), ("b", 1, e1), ("a", 0, Some((0, true)))] {
            let Some(t0) = t else { break };
            let asked = e.map(|e| e.1).unwrap_or(true);
            if asked {
                want.push((t0, L::Asked(id, n)));
            }
            t = e.map(|e| t0 + e.0);
            if let Some(t) = t {
                want.push((t, L::End(id, n)));
            }
        }
        // Step through time: what is there after each millisecond that matters.
        let mut stops: Vec<u64> = want.iter().map(|w| w.0).collect();
        stops.extend(stops.clone().iter().filter(|t| **t > 0).map(|t| t - 1));
        stops.extend([20_000, 40_000]);
        stops.sort();
        stops.dedup();
        for s in stops {
            mc::settle_for((t0 + s * MS).saturating_sub(mc::now()));
            mc::settle();
            // A child that ends exactly at its limit ends either way; whether it was asked with a limit of 0 is open.
            let got: Vec<L> = ctl.log()[from..].to_vec();
            let now: Vec<L> = want.iter().filter(|w| w.0 <= s).map(|w| w.1.clone()).collect();
            let strip = |v: &Vec<L>| -> Vec<L> { v.iter().filter(|l| !matches!(l, L::Asked("b", _) if m1 == Mode::Timeout(0)) && !matches!(l, L::Asked("c", _) if m2 == Mode::Timeout(0))).cloned().collect() };
            check!(strip(&got) == strip(&now), "shutdown-order", "{} ms after the shutdown of [a, b, c] ({}): {:?}, expected {:?}", s, what, got, now);
            let up = t.is_none_or(|t| s < t);
            check!(Process::alive(pid) == up, "shutdown-wait", "{} ms after ({}): supervisor alive {}", s, what, !up);
        }
        if t.is_some() {
            check!(end.get() == vec![ExitR::from("boom")], "end-reason", "{:?}", end.get());
        }
        no_stray_panics(&[]);
        mc::outcome((k1, k2, m1, m2, sup2));
    })
}

/// The order under every interleaving, for every way a supervisor is ended.
fn modes() -> Scenario {
    sc("ways-to-end", (1, 2), 12).run(|| {
        mc::settle();
        mc::explore();
        let (how, k) = (mc::choose(3), mc::choose(4));
        let (kind, mode) = [
            (Kind::Plain, Mode::Default),
            (Kind::Trap(0), Mode::Default),
            (Kind::Stubborn, Mode::Brutal),
            (Kind::Stubborn, Mode::Timeout(10)),
        ][k];
        let ctl = Ctl::new();
        let mut sup = Supervisor::new().max_restarts(0);
        for id in ["a", "b", "c"] {
            sup = sup.add_child(mode.set(ctl.spec(id, kind)));
        }
        let (parent, pid, end) = mc::quiet(|| below(sup));
        let from = ctl.log().len();
        match how {
            0 => parent.panic(),
            1 => {
                proc("stopper", async move {
                    let _ = Supervisor::stop(pid, ExitReason::from("done"), None).await;
                });
            }
            // Too many restarts.
            _ => {
                ctl.cmd("b", Cmd::Panic);
            }
        }
        mc::settle_for(SEC);
        let ends: Vec<&str> = ctl.log()[from..].iter().filter_map(|l| if let L::End(i, _) = l { Some(*i) } else { None }).collect();
        let want = if how == 2 { vec!["b", "c", "a"] } else { vec!["c", "b", "a"] };
        check!(ends == want, "shutdown-order", "{:?}: children ended {:?}, expected {:?}", (how, kind, mode), ends, want);
        let reason = ["boom", "done", "shutdown"][how];
        check!(end.get() == vec![ExitR::from(reason)], "end-reason", "{:?}", end.get());
        check!(!ctl.any_running(), "orphan", "{:?}", ctl.log());
        // One child is only asked after the later one has ended.
        let mut open: Option<&str> = None;
        for l in &ctl.log()[from..] {
            match l {
                L::Asked(i, _) => {
                    check!(open.is_none() || open == Some(*i), "shutdown-overlap", "{:?}", ctl.log());
                    open = Some(*i);
                }
                L::End(..) => open = None,
                L::Start(..) => mc::violation("restarted", "a child was started by a supervisor that ends"),
                _ => (),
            }
        }
        no_stray_panics(&[]);
        mc::outcome((how, kind, mode));
    })
}

/// A child that fails to start ends the ones before it.
fn failing_init() -> Scenario {
    sc("failing-start", (1, 2), 12).run(|| {
        mc::settle();
        mc::explore();
        let (at, k, linked) = (mc::choose(3), mc::choose(3), mc::choose(2) == 1);
        let kind = [Kind::Plain, Kind::Trap(0), Kind::Trap(10)][k];
        let ctl = Ctl::new();
        let ids = ["a", "b", "c"];
        ctl.plan(ids[at], Plan::Fail("no"));
        let mut sup = Supervisor::new();
        for id in ids {
            sup = sup.add_child(ctl.spec(id, kind));
        }
        let res: Shared<Option<Result<Pid, ExitR>>> = Shared::new(None);
        let (r2, c2) = (res.clone(), ctl.clone());
        let starter = proc("starter", async move {
            trap();
            let r = if linked { sup.start_link(SupervisorOptions::new()).await } else { sup.start(SupervisorOptions::new()).await };
            check!(!c2.any_running(), "orphan", "children run after the start failed: {:?}", c2.log());
            r2.set(Some(r.map_err(|e| e.into())));
            std::future::pending::<()>().await;
        });
        mc::settle_for(SEC);
        match res.get() {
            Some(Err(e)) => check!(e == ExitR::from("failed_to_start_child"), "start-error", "{:?}", e),
            o => mc::violation("start-error", &format!("{:?}", o)),
        }
        let mut want: Vec<L> = (0..at).map(|i| L::Start(ids[i], i)).collect();
        want.push(L::Fail(ids[at]));
        want.extend((0..at).rev().map(|i| L::End(ids[i], i)));
        let got: Vec<L> = ctl.log().into_iter().filter(|l| !matches!(l, L::Asked(..))).collect();
        check!(got == want, "shutdown-order", "{:?}, expected {:?}", got, want);
        check!(Process::list().iter().all(|p| *p == starter), "orphan", "processes left: {:?}", Process::list());
        no_stray_panics(&[]);
        mc::outcome((at, kind, linked));
    })
}

/// Children end by themselves while they are being shut down.
fn racing_end() -> Scenario {
    sc("end-during-shutdown", (2, 3), 6).run(|| {
        let ctl = Ctl::new();
        let sup = Supervisor::new()
            .add_child(ctl.spec("a", Kind::Trap(0)))
            .add_child(ctl.spec("b", Kind::Trap(0)).restart(Restart::Transient))
            .add_child(ctl.spec("c", Kind::Plain));
        let (parent, pid, end) = below(sup);
        mc::settle();
        mc::explore();
        let (who, how) = (mc::choose(3), mc::choose(2));
        let from = ctl.log().len();
        ctl.cmd(["a", "b", "c"][who], [Cmd::Panic, Cmd::Return][how]);
        parent.panic();
        mc::settle_for(SEC);
        check!(!Process::alive(pid), "shutdown-hang", "{:?}", ctl.log());
        check!(!ctl.any_running(), "orphan", "{:?}", ctl.log());
        check!(end.get() == vec![ExitR::from("boom")], "end-reason", "{:?}", end.get());
        ctl.check_single();
        no_stray_panics(&[]);
        mc::outcome((who, how, ctl.log()[from..].iter().any(|l| matches!(l, L::Start(..)))));
    })
}

/// The children of a supervisor below are ended before the supervisor itself is.
fn nested() -> Scenario {
    sc("nested", (1, 2), 2).run(|| {
        let ctl = Ctl::new();
        let inner = |id: &'static str, x: &'static str, y: &'static str| {
            let s = Supervisor::new().add_child(ctl.spec(x, Kind::Trap(8000)).shutdown(Shutdown::Infinity)).add_child(ctl.spec(y, Kind::Trap(0)));
            s.child_spec(SupervisorOptions::new()).id(id)
        };
        let sup = Supervisor::new().add_child(inner("i1", "a", "b")).add_child(ctl.spec("m", Kind::Trap(0))).add_child(inner("i2", "c", "d"));
        let (parent, pid, end) = below(sup);
        mc::settle();
        mc::explore();
        let stop = mc::choose(2) == 1;
        if stop {
            proc("stopper", async move {
                let _ = Supervisor::stop(pid, ExitReason::Normal, None).await;
            });
        } else {
            parent.panic();
        }
        mc::settle_for(60 * SEC);
        let ends: Vec<&str> = ctl.log().iter().filter_map(|l| if let L::End(i, _) = l { Some(*i) } else { None }).collect();
        check!(ends == vec!["d", "c", "m", "b", "a"], "shutdown-order", "children ended {:?}", ends);
        check!(end.get() == vec![if stop { ExitR::Normal } else { ExitR::from("boom") }], "end-reason", "{:?}", end.get());
        no_stray_panics(&[]);
        mc::outcome(stop);
    })
}

/// Children that were added later are ended first; ones that were restarted keep their place.
fn dynamic() -> Scenario {
    sc("added-later", (1, 2), 3).run(|| {
        let ctl = Ctl::new();
        let sup = Supervisor::new().add_child(ctl.spec("a", Kind::Trap(0))).add_child(ctl.spec("b", Kind::Trap(0)));
        let (parent, pid, _) = below(sup);
        let client = Agent::spawn("client");
        let spec = ctl.spec("n", Kind::Trap(0));
        client.exec(move || async move { Supervisor::start_child(pid, spec).await.unwrap() });
        mc::settle();
        mc::explore();
        let who = ["a", "b", "n"][mc::choose(3)];
        ctl.cmd(who, Cmd::Panic);
        mc::settle();
        let from = ctl.log().len();
        parent.panic();
        mc::settle_for(SEC);
        let ends: Vec<&str> = ctl.log()[from..].iter().filter_map(|l| if let L::End(i, _) = l { Some(*i) } else { None }).collect();
        check!(ends == vec!["n", "b", "a"], "shutdown-order", "after a restart of {}: children ended {:?}", who, ends);
        check!(!Process::alive(pid), "shutdown-hang", "");
        no_stray_panics(&[]);
        mc::outcome(who);
    })
}

/// `terminate_child` ends one child the same way, and nothing else.
fn one() -> Scenario {
    sc("terminate-child", (2, 3), 8).run(|| {
        mc::settle();
        mc::explore();
        let k = mc::choose(8);
        let (kind, mode) = [
            (Kind::Plain, Mode::Default),
            (Kind::Trap(0), Mode::Default),
            (Kind::Trap(300), Mode::Timeout(1000)),
            (Kind::Trap(2000), Mode::Timeout(1000)),
            (Kind::Trap(20000), Mode::Infinity),
            (Kind::Stubborn, Mode::Brutal),
            (Kind::Stubborn, Mode::Timeout(10)),
            (Kind::Stubborn, Mode::Default),
        ][k];
        let ctl = Ctl::new();
        let sup = Supervisor::new().add_child(ctl.spec("a", Kind::Plain)).add_child(mode.set(ctl.spec("b", kind))).add_child(ctl.spec("c", Kind::Plain));
        let (pid, client) = mc::quiet(|| (start_sup(sup).unwrap(), Agent::spawn("client")));
        let t0 = mc::now();
        let done: Shared<Option<(bool, bool, u64)>> = Shared::new(None);
        let (d2, c2) = (done.clone(), ctl.clone());
        client.post(move || async move {
            let r = Supervisor::terminate_child(pid, "b").await;
            d2.set(Some((r.is_ok(), c2.running("b").is_empty(), mc::now() - t0)));
        });
        let (t, asked) = mode.end(kind, false).unwrap();
        if t > 0 {
            mc::settle_for((t - 1) * MS);
            check!(ctl.running("b").len() == 1 && (t >= 5000 || done.get().is_none()), "shutdown-early", "{:?} {:?}: {:?}", kind, mode, ctl.log());
        }
        mc::settle_for(2 * MS);
        mc::settle();
        let d = done.get();
        // Requests of more than five seconds time out for the client.
        check!(ctl.running("b").is_empty(), "shutdown-late", "{:?} {:?}: {:?}", kind, mode, ctl.log());
        check!(t >= 5000 || matches!(d, Some((true, true, x)) if x <= (t + 1) * MS), "shutdown-late", "{:?} {:?} {:?}: {:?}", kind, mode, d, ctl.log());
        check!(ctl.log().iter().any(|l| matches!(l, L::Asked("b", _))) == asked, "shutdown-asked", "{:?} {:?}: {:?}", kind, mode, ctl.log());
        mc::settle_for(30 * SEC);
        check!(ctl.running("b").is_empty(), "terminated-restarted", "{:?}", ctl.log());
        check!(ctl.running("a").len() == 1 && ctl.running("c").len() == 1 && ctl.log().iter().filter(|l| matches!(l, L::End(..))).count() == 1, "bystander", "{:?}", ctl.log());
        check!(Process::alive(pid), "sup-died", "");
        no_stray_panics(&[]);
        mc::outcome((kind, mode));
    })
}
