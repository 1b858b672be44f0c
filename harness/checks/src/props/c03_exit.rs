//! C03: exit signals have the documented effect for every reason, sender and flag.

use crate::util::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![matrix(), two_signals(), trap_race(), after_signal(), histories()]
}

fn reason(k: usize) -> ExitReason {
    match k {
        0 => ExitReason::Normal,
        1 => ExitReason::Ignore,
        2 => ExitReason::Kill,
        _ => ExitReason::from("custom"),
    }
}

/// reason x (to itself | to another) x trapping, with the observer's view.
fn matrix() -> Scenario {
    sc("matrix", (1, 3), 16).run(|| {
        let gate = Gate::new();
        let (kind, own, traps) = (Shared::new(0usize), Shared::new(false), Shared::new(false));
        let log = Shared::new(Vec::new());
        let t = {
            let (gate, kind, own, traps, log) = (gate.clone(), kind.clone(), own.clone(), traps.clone(), log.clone());
            proc("target", async move {
                gate.wait().await;
                if traps.get() {
                    trap();
                }
                if own.get() {
                    Process::exit(Process::current(), reason(kind.get()));
                }
                collect(log).await
            })
        };
        let seen = Shared::new(Vec::new());
        {
            let seen = seen.clone();
            proc("observer", async move {
                let _ = Process::monitor(t);
                collect(seen).await
            });
        }
        let go = Gate::new();
        let sender = {
            let (go, kind) = (go.clone(), kind.clone());
            proc("sender", async move {
                go.wait().await;
                Process::exit(t, reason(kind.get()));
                std::future::pending::<()>().await
            })
        };
        mc::settle();
        mc::explore();
        let k = mc::choose(4);
        let o = mc::choose(2) == 1;
        let tr = mc::choose(2) == 1;
        kind.set(k);
        own.set(o);
        traps.set(tr);
        gate.open();
        mc::settle();
        if !o {
            go.open();
        }
        mc::settle();
        let r = ExitR::from(reason(k));
        let (log, seen) = (log.get(), seen.get());
        let ends = o || k == 2 || (k == 3 && !tr);
        let message = !ends && tr;
        if ends {
            check!(seen.len() == 1 && matches!(&seen[0], Ev::Down(_, _, e) if *e == r), "exit-effect", "reason {:?} own {} trap {}: observer saw {:?}", r, o, tr, seen.len());
            check!(!Process::list().contains(&t), "exit-effect", "still listed");
            check!(log.is_empty(), "exit-message", "a process that is ended got a message");
        } else {
            check!(seen.is_empty() && Process::alive(t), "exit-effect", "reason {:?} own {} trap {}: the process ended", r, o, tr);
            let want = if message { vec![Ev::Exit(sender, r.clone())] } else { vec![] };
            check!(log == want, "exit-message", "reason {:?} own {} trap {}: {} messages", r, o, tr, log.len());
        }
        check!(Process::alive(sender), "sender-hit", "the sender of a signal ended");
        no_stray_panics(&[]);
        mc::outcome((k, o, tr));
    })
}

/// Two signals and the process's own end: all watchers and partners agree on one of the reasons.
fn two_signals() -> Scenario {
    sc("two-signals", (2, 3), 3).run(|| {
        let gate = Gate::new();
        let mode = Shared::new(0usize);
        let t = {
            let (gate, mode) = (gate.clone(), mode.clone());
            proc("target", async move {
                gate.wait().await;
                if mode.get() == 1 {
                    panic!("boom");
                }
                std::future::pending::<()>().await
            })
        };
        let logs: Vec<Shared<Vec<Ev>>> = (0..3).map(|_| Shared::new(Vec::new())).collect();
        for i in 0..2 {
            let log = logs[i].clone();
            proc("observer", async move {
                let _ = Process::monitor(t);
                collect(log).await
            });
        }
        {
            let log = logs[2].clone();
            proc("partner", async move {
                trap();
                Process::link(t);
                collect(log).await
            });
        }
        for (n, r) in [("s1", "x"), ("s2", "y")] {
            let gate = gate.clone();
            proc(n, async move {
                gate.wait().await;
                Process::exit(t, r);
            });
        }
        mc::settle();
        mc::explore();
        mode.set(mc::choose(2));
        gate.open();
        mc::settle();
        let mut rs = Vec::new();
        for l in &logs {
            let l = l.get();
            check!(l.len() == 1, "end-count", "{} notifications of one end", l.len());
            rs.push(match &l[0] {
                Ev::Down(_, _, r) => r.clone(),
                Ev::Exit(_, r) => r.clone(),
                _ => mc::violation("end-event", "unexpected message"),
            });
        }
        check!(rs.iter().all(|r| *r == rs[0]), "reason-differs", "watchers of one end saw {:?}", rs);
        let ok = ["x", "y", "boom"].iter().any(|r| rs[0] == ExitR::from(*r));
        check!(ok, "reason-invented", "{:?}", rs[0]);
        no_stray_panics(&[]);
        mc::outcome(rs[0].clone());
    })
}

/// A signal while the process starts or stops to trap: it ends, or gets the message, never both or none.
fn trap_race() -> Scenario {
    sc("trap-vs-signal", (2, 4), 3).run(|| {
        let gate = Gate::new();
        let mode = Shared::new(0usize);
        let log = Shared::new(Vec::new());
        let t = {
            let (gate, log, mode) = (gate.clone(), log.clone(), mode.clone());
            proc("target", async move {
                if mode.get() == 1 {
                    trap();
                }
                gate.wait().await;
                if mode.get() == 1 {
                    Process::set_flags(ProcessFlags::empty());
                } else {
                    trap();
                }
                collect(log).await
            })
        };
        let s = {
            let gate = gate.clone();
            proc("sender", async move {
                gate.wait().await;
                Process::exit(t, "sig");
                std::future::pending::<()>().await
            })
        };
        mc::explore();
        let m = mc::choose(2);
        mode.set(m);
        mc::settle();
        gate.open();
        mc::settle();
        let listed = Process::list().contains(&t);
        let log = log.get();
        if listed {
            check!(Process::alive(t), "half-dead", "listed but not alive after everything is quiet");
            check!(log == vec![Ev::Exit(s, ExitR::from("sig"))], "signal-lost", "alive with {} messages", log.len());
        } else {
            check!(log.is_empty(), "signal-twice", "ended by the signal and got its message too");
        }
        no_stray_panics(&[]);
        mc::outcome((m, listed));
    })
}

/// A suspended process that gets an ending signal runs no further.
fn after_signal() -> Scenario {
    sc("no-work-after-end", (3, 5), 2).run(|| {
        let gate = Gate::new();
        let handled = Shared::new(0u32);
        let t = {
            let handled = handled.clone();
            proc("target", async move {
                loop {
                    let _ = Process::receive::<M>().await;
                    handled.with(|h| *h += 1);
                }
            })
        };
        let kill = Shared::new(false);
        {
            let (gate, kill) = (gate.clone(), kill.clone());
            proc("sender", async move {
                gate.wait().await;
                if kill.get() {
                    Process::exit(t, ExitReason::Kill);
                } else {
                    Process::exit(t, "stop");
                }
                Process::send(t, M::N(2));
                Process::send(t, M::N(3));
            });
        }
        mc::settle();
        mc::explore();
        kill.set(mc::choose(2) == 1);
        gate.open();
        mc::settle();
        check!(!Process::list().contains(&t), "signal-lost", "the process is still there");
        check!(handled.get() == 0, "work-after-end", "{} messages sent after the signal were handled", handled.get());
        no_stray_panics(&[]);
        mc::outcome(kill.get());
    })
}

/// Every history of trapping, not trapping, messages and signals of all kinds, against what each of them is said to do.
fn histories() -> Scenario {
    let depth = if thorough() { 6 } else { 5 };
    seq("histories", 500).run(move || {
        mc::settle();
        let (p, q, w) = (Agent::spawn("subject"), Agent::spawn("other"), Agent::spawn("watcher"));
        let pid = p.pid;
        let from = q.pid;
        w.call(move || Process::monitor(pid));
        mc::explore();
        let (mut traps, mut ended, mut want, mut trail): (bool, Option<ExitR>, Vec<Ev>, Vec<usize>) = (false, None, vec![], vec![]);
        for step in 0..depth {
            let op = mc::choose(11);
            trail.push(op);
            let n = step as u32;
            let reason = match op {
                3 | 8 => ExitReason::Normal,
                4 | 9 => ExitReason::from("x"),
                5 | 10 => ExitReason::Kill,
                _ => ExitReason::Ignore,
            };
            match op {
                0 => {
                    p.call(|| Process::set_flags(ProcessFlags::TRAP_EXIT));
                    traps = true;
                }
                1 => {
                    p.call(|| Process::set_flags(ProcessFlags::empty()));
                    traps = false;
                }
                2 => {
                    q.call(move || Process::send(pid, M::N(n)));
                    want.push(Ev::Msg(M::N(n)));
                }
                3..=6 => {
                    let r = reason.clone();
                    q.call(move || Process::exit(pid, r));
                    let passive = matches!(reason, ExitReason::Normal | ExitReason::Ignore);
                    if op == 5 || (!traps && !passive) {
                        ended = Some(reason.into());
                    } else if traps {
                        want.push(Ev::Exit(from, reason.into()));
                    }
                }
                7 => {
                    let f = p.call(Process::flags);
                    check!(f.map(|f| f.contains(ProcessFlags::TRAP_EXIT)) == Some(traps), "flags", "after {:?}: {:?}", trail, f);
                }
                _ => {
                    let r = reason.clone();
                    p.post(move || async move {
                        Process::exit(Process::current(), r);
                        std::future::pending::<()>().await
                    });
                    ended = Some(reason.into());
                }
            }
            mc::settle();
            check!(Process::alive(pid) == ended.is_none(), "history-alive", "after {:?}", trail);
            if ended.is_some() {
                break;
            }
        }
        let seen = w.exec(events).unwrap();
        if let Some(r) = &ended {
            check!(matches!(&seen[..], [Ev::Down(_, _, e)] if e == r), "history-reason", "after {:?}: reported {:?}, expected {:?}", trail, seen, r);
        } else {
            check!(seen.is_empty(), "history-reason", "after {:?}: reported {:?}", trail, seen);
            let got = p.exec(events).unwrap();
            check!(got == want, "history-messages", "after {:?}: received {:?}, expected {:?}", trail, got, want);
        }
        no_stray_panics(&[]);
        mc::outcome((traps, ended, want));
    })
}
