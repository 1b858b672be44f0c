//! C13: an ended child is restarted exactly if its restart mode and exit reason ask for it.

use crate::sup::*;
use crate::util::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![matrix(), failing_start(), two_at_once(), restart_vs_request(), nested()]
}

const MODES: [Restart; 3] = [Restart::Permanent, Restart::Temporary, Restart::Transient];
const ENDS: [Cmd; 6] = [Cmd::Return, Cmd::Panic, Cmd::ExitNormal, Cmd::ExitShutdown, Cmd::ExitBad, Cmd::ExitKill];

fn restarts(mode: Restart, c: Cmd) -> bool {
    match mode {
        Restart::Permanent => true,
        Restart::Temporary => false,
        Restart::Transient => c.abnormal(),
    }
}

/// Every mode, every way to end, twice in a row.
fn matrix() -> Scenario {
    sc("matrix", (0, 1), 100).no_preempt().run(|| {
        let ctl = Ctl::new();
        mc::settle();
        mc::explore();
        let mode = MODES[mc::choose(3)];
        let c1 = ENDS[mc::choose(6)];
        let c2 = ENDS[mc::choose(6)];
        let sup = Supervisor::new()
            .add_child(ctl.spec("x", Kind::Plain))
            .add_child(ctl.spec("a", Kind::Plain).restart(mode))
            .add_child(ctl.spec("y", Kind::Plain).restart(Restart::Temporary));
        let pid = start_sup(sup).unwrap();
        let other = (ctl.running("x"), ctl.running("y"));
        let mut n = 1;
        for c in [c1, c2] {
            let was = ctl.running("a");
            if !ctl.cmd("a", c) {
                break;
            }
            mc::settle();
            let now = ctl.running("a");
            if restarts(mode, c) {
                n += 1;
                check!(now.len() == 1 && now != was, "not-restarted", "a {:?} child ended by {:?}: {} running", mode, c, now.len());
                check!(Process::alive(now[0].1), "not-alive", "the restarted child is not alive");
            } else {
                check!(now.is_empty(), "restarted", "a {:?} child ended by {:?} was restarted", mode, c);
            }
        }
        let starts = ctl.log().iter().filter(|l| matches!(l, L::Start("a", _))).count();
        check!(starts == n, "start-count", "{} starts, expected {}", starts, n);
        check!(other == (ctl.running("x"), ctl.running("y")), "bystander", "another child was affected");
        check!(Process::alive(pid), "sup-died", "the supervisor ended");
        ctl.check_single();
        no_stray_panics(&[]);
        mc::outcome((mode, c1, c2));
    })
}

/// Restarting fails some times: tried again until it succeeds, and only while it is wanted.
fn failing_start() -> Scenario {
    sc("failing-restart", (2, 3), 5).run(|| {
        let ctl = Ctl::new();
        let gate = Gate::new();
        let sup = Supervisor::new()
            .max_restarts(3)
            .add_child(ctl.spec("a", Kind::Plain))
            .add_child(ctl.spec("b", Kind::Plain));
        let pid = start_sup(sup).unwrap();
        let op = Shared::new(0usize);
        let res = Shared::new(None);
        {
            let (gate, op, res) = (gate.clone(), op.clone(), res.clone());
            proc("client", async move {
                gate.wait().await;
                match op.get() {
                    0 => (),
                    1 => res.set(Some(Supervisor::terminate_child(pid, "a").await.map_err(sup_e))),
                    _ => res.set(Some(Supervisor::delete_child(pid, "a").await.map_err(sup_e))),
                }
            });
        }
        mc::settle();
        mc::explore();
        let (fails, o) = (mc::choose(3), mc::choose(3));
        op.set(o);
        for _ in 0..fails {
            ctl.plan("a", Plan::Fail("no"));
        }
        gate.open();
        ctl.cmd("a", Cmd::Panic);
        mc::settle();
        check!(Process::alive(pid), "sup-died", "the supervisor ended after {} failing restarts of 3 allowed", fails);
        check!(ctl.running("b").len() == 1 && ctl.running("b")[0].0 == 1, "bystander", "another child was affected");
        let n = ctl.running("a").len();
        match (o, res.get()) {
            (1, Some(Ok(()))) => {
                check!(n == 0, "terminated-restarted", "a terminated child runs ({} failing restarts): {:?}", fails, ctl.log());
            }
            (2, Some(Ok(()))) => mc::violation("deleted-running", "a running child could be deleted"),
            (2, Some(Err(e))) => {
                check!(e == SupE::Running || e == SupE::Restarting, "delete-error", "{:?}", e);
                check!(n == 1, "not-restarted", "{} running", n);
            }
            (1, r) => mc::violation("terminate-error", &format!("{:?}", r)),
            _ => check!(n == 1, "not-restarted", "{} running after {} failing restarts", n, fails),
        }
        ctl.check_single();
        no_stray_panics(&[]);
        mc::outcome((fails, o, res.get(), ctl.log().len()));
    })
}

/// Two children end at once.
fn two_at_once() -> Scenario {
    sc("two-ends", (2, 3), 3).run(|| {
        let ctl = Ctl::new();
        let sup = Supervisor::new()
            .add_child(ctl.spec("a", Kind::Plain))
            .add_child(ctl.spec("b", Kind::Plain).restart(Restart::Transient))
            .add_child(ctl.spec("c", Kind::Plain).restart(Restart::Temporary));
        let pid = start_sup(sup).unwrap();
        mc::settle();
        mc::explore();
        let set = mc::choose(3);
        let ids: [&str; 2] = [["a", "b"], ["a", "c"], ["b", "c"]][set];
        let before: Vec<usize> = ["a", "b", "c"].iter().map(|i| ctl.running(i)[0].0).collect();
        for i in ids {
            ctl.cmd(i, Cmd::Panic);
        }
        mc::settle();
        for (k, i) in ["a", "b", "c"].into_iter().enumerate() {
            let r = ctl.running(i);
            let hit = ids.contains(&i);
            if i == "c" && hit {
                check!(r.is_empty(), "restarted", "a temporary child was restarted");
            } else {
                check!(r.len() == 1 && (r[0].0 != before[k]) == hit, "not-restarted", "child {}: {:?}", i, r);
            }
        }
        check!(Process::alive(pid), "sup-died", "");
        ctl.check_single();
        no_stray_panics(&[]);
        mc::outcome((set, ctl.log().len()));
    })
}

/// A child ends while a client terminates or asks to restart it.
fn restart_vs_request() -> Scenario {
    sc("end-vs-request", (2, 3), 4).run(|| {
        let ctl = Ctl::new();
        let gate = Gate::new();
        let sup = Supervisor::new().add_child(ctl.spec("a", Kind::Plain)).add_child(ctl.spec("b", Kind::Plain));
        let pid = start_sup(sup).unwrap();
        let op = Shared::new(0usize);
        let res: Shared<Option<Result<bool, SupE>>> = Shared::new(None);
        {
            let (gate, op, res) = (gate.clone(), op.clone(), res.clone());
            proc("client", async move {
                gate.wait().await;
                res.set(Some(match op.get() {
                    0 => Supervisor::terminate_child(pid, "a").await.map(|_| true).map_err(sup_e),
                    1 => Supervisor::restart_child(pid, "a").await.map(|p| p.is_some()).map_err(sup_e),
                    _ => Supervisor::delete_child(pid, "a").await.map(|_| true).map_err(sup_e),
                }));
            });
        }
        mc::settle();
        mc::explore();
        let o = mc::choose(3);
        op.set(o);
        gate.open();
        ctl.cmd("a", Cmd::Panic);
        mc::settle();
        let n = ctl.running("a").len();
        let r = res.get().unwrap_or_else(|| mc::violation("call-hang", ""));
        match o {
            // Either the end was seen first (restarted, then terminated), or it was the termination.
            0 => check!(r == Ok(true) && n == 0, "terminate", "{:?}, {} running", r, n),
            _ => check!(r == Err(SupE::Running) && n == 1, "not-restarted", "{:?}, {} running", r, n),
        }
        check!(ctl.running("b").len() == 1, "bystander", "");
        check!(Process::alive(pid), "sup-died", "");
        ctl.check_single();
        no_stray_panics(&[]);
        mc::outcome((o, ctl.log().len()));
    })
}

/// A supervisor below a supervisor is restarted with all of its children.
fn nested() -> Scenario {
    sc("nested", (1, 2), 3).run(|| {
        let ctl = Ctl::new();
        let out: Shared<Vec<Pid>> = Shared::new(Vec::new());
        let (c2, o2) = (AssertSend(ctl.clone()), AssertSend(out.clone()));
        let inner = ChildSpec::new("inner").child_type(ChildType::Supervisor).start(move || {
            let c = &c2;
            let o = &o2;
            let (c, o) = (c.0.clone(), o.0.clone());
            AssertSend(async move {
                let p = Supervisor::new()
                    .max_restarts(1)
                    .add_child(c.spec("a", Kind::Plain))
                    .add_child(c.spec("b", Kind::Trap(0)))
                    .start_link(SupervisorOptions::new())
                    .await?;
                o.push(p);
                Ok(p)
            })
        });
        let sup = Supervisor::new().add_child(inner).add_child(ctl.spec("x", Kind::Plain));
        let pid = start_sup(sup).unwrap();
        mc::settle();
        mc::explore();
        let how = mc::choose(3);
        match how {
            0 => {
                // More restarts than the inner supervisor allows.
                ctl.cmd("a", Cmd::Panic);
                mc::settle();
                check!(out.get().len() == 1, "inner-died", "one restart is allowed");
                ctl.cmd("a", Cmd::Panic);
            }
            1 => signal(out.get()[0], ExitReason::Kill),
            _ => signal(out.get()[0], "bad"),
        }
        mc::settle();
        let n = out.get().len();
        // A supervisor traps exits: a signal of a stranger does not end it.
        check!(n == if how == 2 { 1 } else { 2 }, "not-restarted", "the inner supervisor was started {} times", n);
        for i in ["a", "b", "x"] {
            let r = ctl.running(i);
            check!(r.len() == 1, "orphan", "child {}: {} running after {}: {:?}", i, r.len(), how, ctl.log());
        }
        check!(Process::alive(pid) && Process::alive(out.get()[n - 1]), "sup-died", "");
        no_stray_panics(&[]);
        mc::outcome(how);
    })
}
