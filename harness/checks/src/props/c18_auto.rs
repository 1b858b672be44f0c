//! C18: a supervisor shuts itself down exactly when its significant children have finished.

use crate::sup::*;
use crate::util::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![histories(), interleaved(), waiting()]
}

const MODES: [AutoShutdown; 3] = [AutoShutdown::Never, AutoShutdown::AnySignificant, AutoShutdown::AllSignificant];

/// Every set of children, every history of their ends.
fn histories() -> Scenario {
    let depth = if thorough() { 4 } else { 3 };
    seq("histories", 500).run(move || {
        mc::settle();
        mc::explore();
        let mode = MODES[mc::choose(3)];
        let ctl = Ctl::new();
        let ids = ["a", "b", "c"];
        let mut sup = Supervisor::new().auto_shutdown(mode).max_restarts(100).add_child(ctl.spec("p", Kind::Trap(0)));
        let mut kids: BTreeMap<&str, (bool, bool)> = BTreeMap::new();
        for id in ids {
            let t = mc::choose(4);
            let (temp, sig) = (t & 1 == 1, t & 2 == 2);
            kids.insert(id, (temp, sig));
            let spec = ctl.spec(id, Kind::Plain).restart(if temp { Restart::Temporary } else { Restart::Transient });
            sup = sup.add_child(spec.significant(sig));
        }
        let what = format!("{:?} {:?} (temporary, significant)", mode, kids);
        let pid = start_sup(sup).unwrap();
        let end = watch_end(pid);
        let client = Agent::spawn("client");
        let mut parked: BTreeSet<&str> = BTreeSet::new();
        let mut up: BTreeSet<&str> = ids.into_iter().collect();
        let mut trail = vec![];
        for _ in 0..depth {
            let id = ids[mc::choose(3)];
            let (temp, sig) = kids[id];
            let cmd = [Some(Cmd::Return), None, Some(Cmd::Panic), Some(Cmd::ExitShutdown)][mc::choose(if id == "a" || thorough() { 4 } else { 3 })];
            if !up.contains(id) && !(cmd.is_none() && parked.contains(id)) {
                return;
            }
            trail.push((id, cmd));
            let finished = match cmd {
                Some(cmd) => {
                    ctl.cmd(id, cmd);
                    temp || !cmd.abnormal()
                }
                // By request: ended, and no longer counted, or started again.
                None if up.remove(id) => {
                    if !temp {
                        parked.insert(id);
                    }
                    let r = client.exec(move || async move { Supervisor::terminate_child(pid, id).await.is_ok() });
                    check!(r == Some(true), "request", "{} after {:?}", what, trail);
                    false
                }
                None => {
                    parked.remove(id);
                    up.insert(id);
                    let r = client.exec(move || async move { Supervisor::restart_child(pid, id).await.is_ok() });
                    check!(r == Some(true), "request", "{} after {:?}", what, trail);
                    false
                }
            };
            mc::settle();
            if finished {
                up.remove(id);
            }
            let left = up.iter().filter(|i| kids[*i].1).count();
            let want = finished
                && sig
                && match mode {
                    AutoShutdown::Never => false,
                    AutoShutdown::AnySignificant => true,
                    AutoShutdown::AllSignificant => left == 0,
                };
            let ended = !Process::alive(pid);
            check!(ended == want, "auto-shutdown", "{} after {:?}: shut down {}, expected {}", what, trail, ended, want);
            if ended {
                check!(end.get() == vec![ExitR::from("shutdown")], "end-reason", "{:?}", end.get());
                check!(!ctl.any_running(), "orphan", "{} after {:?}: {:?}", what, trail, ctl.log());
                break;
            }
            for i in ids {
                check!(ctl.running(i).len() == up.contains(i) as usize, "running", "{} after {:?}: {}", what, trail, i);
            }
            check!(ctl.running("p").len() == 1, "running", "");
        }
        ctl.check_single();
        no_stray_panics(&[]);
        mc::outcome((what, trail));
    })
}

/// Two children end at once, one of them perhaps again after its restart.
fn interleaved() -> Scenario {
    sc("two-ends", (1, 2), 12).run(|| {
        mc::settle();
        mc::explore();
        let (m, c1, c2) = (1 + mc::choose(2), mc::choose(3), mc::choose(3));
        let cmds = [Cmd::Return, Cmd::ExitShutdown, Cmd::Panic];
        let ctl = Ctl::new();
        let sup = Supervisor::new()
            .auto_shutdown(MODES[m])
            .add_child(ctl.spec("p", Kind::Trap(0)))
            .add_child(ctl.spec("a", Kind::Plain).restart(Restart::Transient).significant(true))
            .add_child(ctl.spec("b", Kind::Plain).restart(Restart::Temporary).significant(true))
            .add_child(ctl.spec("n", Kind::Plain).restart(Restart::Temporary));
        let (pid, end) = mc::quiet(|| {
            let p = start_sup(sup).unwrap();
            (p, watch_end(p))
        });
        ctl.cmd("a", cmds[c1]);
        ctl.cmd("b", cmds[c2]);
        mc::settle();
        // b is temporary: it has finished however it ended.
        let want = m == 1 || !cmds[c1].abnormal();
        check!(Process::alive(pid) != want, "auto-shutdown", "{:?}, a {:?} b {:?}: shut down {}", MODES[m], cmds[c1], cmds[c2], !want);
        if want {
            check!(end.get() == vec![ExitR::from("shutdown")], "end-reason", "{:?}", end.get());
            check!(!ctl.any_running(), "orphan", "{:?}", ctl.log());
        } else {
            check!(ctl.running("p").len() == 1 && ctl.running("n").len() == 1 && ctl.running("a").len() == 1, "running", "{:?}", ctl.log());
        }
        no_stray_panics(&[]);
        mc::outcome((m, cmds[c1], cmds[c2]));
    })
}

/// A significant child that waits for its restart has not finished.
fn waiting() -> Scenario {
    sc("waits-for-restart", (2, 3), 2).run(|| {
        let ctl = Ctl::new();
        let all = AutoShutdown::AllSignificant;
        let sup = Supervisor::new()
            .auto_shutdown(all)
            .max_restarts(5)
            .add_child(ctl.spec("p", Kind::Trap(0)))
            .add_child(ctl.spec("a", Kind::Plain).restart(Restart::Transient).significant(true))
            .add_child(ctl.spec("b", Kind::Plain).restart(Restart::Temporary).significant(true));
        let pid = start_sup(sup).unwrap();
        mc::settle();
        mc::explore();
        let fails = 1 + mc::choose(2);
        for _ in 0..fails {
            ctl.plan("a", Plan::Fail("no"));
        }
        ctl.cmd("a", Cmd::Panic);
        ctl.cmd("b", Cmd::Return);
        mc::settle();
        check!(Process::alive(pid), "auto-shutdown", "shut down while a significant child waited for its restart: {:?}", ctl.log());
        check!(ctl.running("a").len() == 1 && ctl.running("p").len() == 1, "running", "{:?}", ctl.log());
        ctl.cmd("a", Cmd::Return);
        mc::settle();
        check!(!Process::alive(pid) && !ctl.any_running(), "auto-shutdown", "not shut down after the last significant child finished");
        no_stray_panics(&[]);
        mc::outcome(fails);
    })
}
