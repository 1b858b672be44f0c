//! C05: a registered name belongs to at most one live process and is free once that one has ended.

use crate::util::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![same_name(), same_pid(), register_vs_exit(), takeover(), history(), spellings()]
}

/// Two processes claim one name for themselves.
fn same_name() -> Scenario {
    sc("same-name", (3, 5), 2).run(|| {
        let gate = Gate::new();
        let res: Vec<Shared<Option<bool>>> = (0..2).map(|_| Shared::new(None)).collect();
        let pids: Vec<Pid> = (0..2)
            .map(|i| {
                let (gate, res) = (gate.clone(), res[i].clone());
                proc("claimer", async move {
                    gate.wait().await;
                    res.set(Some(Process::register(Process::current(), "name").is_ok()));
                    std::future::pending::<()>().await
                })
            })
            .collect();
        mc::settle();
        mc::explore();
        gate.open();
        mc::settle();
        let r: Vec<bool> = res.iter().map(|r| r.get().unwrap()).collect();
        check!(r[0] != r[1], "name-unique", "registering one name twice gave {:?}", r);
        let owner = pids[usize::from(r[1])];
        check!(Process::whereis("name") == Some(owner), "whereis", "the name leads elsewhere");
        check!(Process::registered() == vec!["name".to_string()], "registered", "{:?}", Process::registered());
        for p in &pids {
            let n = Process::info(*p).unwrap().registered_name;
            check!(n.is_some() == (*p == owner), "info-name", "{:?}", n);
        }
        no_stray_panics(&[]);
        mc::outcome(r);
    })
}

/// One process gets two names at once: only one registration succeeds.
fn same_pid() -> Scenario {
    sc("same-process", (3, 5), 2).run(|| {
        let gate = Gate::new();
        let t = proc("target", async { std::future::pending::<()>().await });
        let res: Vec<Shared<Option<bool>>> = (0..2).map(|_| Shared::new(None)).collect();
        for (i, n) in ["a", "b"].into_iter().enumerate() {
            let (gate, res) = (gate.clone(), res[i].clone());
            proc("registrar", async move {
                gate.wait().await;
                res.set(Some(Process::register(t, n).is_ok()));
            });
        }
        mc::settle();
        mc::explore();
        gate.open();
        mc::settle();
        let r: Vec<bool> = res.iter().map(|r| r.get().unwrap()).collect();
        check!(r[0] != r[1], "one-name", "registering one process twice gave {:?}", r);
        for (i, n) in ["a", "b"].into_iter().enumerate() {
            check!(Process::whereis(n) == r[i].then_some(t), "whereis", "{}", n);
        }
        no_stray_panics(&[]);
        mc::outcome(r);
    })
}

/// register while the process ends: afterwards the name is free.
fn register_vs_exit() -> Scenario {
    sc("register-vs-exit", (3, 5), 2).run(|| {
        let gate = Gate::new();
        let kind = Shared::new(0usize);
        let t = {
            let (gate, kind) = (gate.clone(), kind.clone());
            proc("target", async move {
                gate.wait().await;
                if kind.get() == 1 {
                    panic!("boom");
                }
            })
        };
        let res = Shared::new(None);
        {
            let (gate, res) = (gate.clone(), res.clone());
            proc("registrar", async move {
                gate.wait().await;
                res.set(Some(Process::register(t, "name").is_ok()));
            });
        }
        mc::settle();
        mc::explore();
        kind.set(mc::choose(2));
        gate.open();
        mc::settle();
        check!(Process::whereis("name").is_none(), "stale-name", "the name of an ended process is still taken (register succeeded: {:?})", res.get());
        check!(Process::registered().is_empty(), "stale-name", "{:?}", Process::registered());
        let u = proc("next", async { std::future::pending::<()>().await });
        mc::settle();
        check!(Process::register(u, "name").is_ok(), "stale-name", "the name cannot be taken again");
        no_stray_panics(&[]);
        mc::outcome((kind.get(), res.get()));
    })
}

/// The name moves to another process while the old owner gives it up and ends.
fn takeover() -> Scenario {
    sc("takeover", (3, 5), 3).run(|| {
        let gate = Gate::new();
        let freed = Gate::new();
        let mode = Shared::new(0usize);
        let old = {
            let (gate, mode) = (gate.clone(), mode.clone());
            proc("old", async move {
                gate.wait().await;
                if mode.get() == 0 {
                    Process::unregister("name");
                }
            })
        };
        Process::register(old, "name").unwrap();
        {
            let (gate, mode, freed) = (gate.clone(), mode.clone(), freed.clone());
            proc("helper", async move {
                gate.wait().await;
                if mode.get() == 1 {
                    // Only the old process can be registered until now.
                    let _ = std::panic::catch_unwind(|| Process::unregister("name"));
                    freed.open();
                }
            });
        }
        let res = Shared::new(None);
        let new = {
            let (gate, freed, res, mode) = (gate.clone(), freed.clone(), res.clone(), mode.clone());
            proc("new", async move {
                gate.wait().await;
                if mode.get() == 1 {
                    freed.wait().await;
                }
                for _ in 0..3 {
                    let ok = Process::register(Process::current(), "name").is_ok();
                    res.set(Some(ok));
                    if ok {
                        break;
                    }
                    tokio::task::yield_now().await;
                }
                std::future::pending::<()>().await
            })
        };
        mc::settle();
        mc::explore();
        let m = mc::choose(3);
        mode.set(m);
        gate.open();
        mc::settle();
        let ok = res.get() == Some(true);
        let at = Process::whereis("name");
        if ok {
            check!(at == Some(new), "name-lost", "mode {}: a live process registered the name and lost it (found: {})", m, at.is_some());
            check!(Process::info(new).unwrap().registered_name.as_deref() == Some("name"), "info-name", "");
        } else {
            check!(at.is_none(), "stale-name", "nobody alive holds the name but it is found");
            check!(m != 1, "name-unavailable", "the name was free but could not be taken");
        }
        no_stray_panics(&["was not registered"]);
        mc::outcome((m, ok, at.is_some()));
    })
}

/// Every history of register, unregister and ends of three processes and two names.
fn history() -> Scenario {
    let depth = if thorough() { 6 } else { 4 };
    seq("histories", 100).run(move || {
        let p: Vec<Agent> = ["p0", "p1"].iter().map(|n| Agent::spawn(n)).collect();
        let d = Agent::spawn("driver");
        mc::settle();
        mc::explore();
        let names = ["a", "b"];
        let mut owner: [Option<usize>; 2] = [None, None];
        let mut alive = [true; 2];
        let mut trail = Vec::new();
        for _ in 0..depth {
            let op = mc::choose(9);
            trail.push(op);
            match op {
                0..=3 => {
                    let (i, n) = (op / 2, op % 2);
                    let pid = p[i].pid;
                    let ok = d.call(move || Process::register(pid, ["a", "b"][n]).is_ok()).unwrap();
                    let want = owner[n] == Some(i) || (alive[i] && owner[n].is_none() && owner[1 - n] != Some(i));
                    check!(ok == want, "history-register", "after {:?}: register returned {}, expected {}", trail, ok, want);
                    if want {
                        owner[n] = Some(i);
                    }
                }
                4 | 5 => {
                    let n = op - 4;
                    let ok = d
                        .call(move || std::panic::catch_unwind(move || Process::unregister(["a", "b"][n])).is_ok())
                        .unwrap();
                    check!(ok == owner[n].is_some(), "history-unregister", "after {:?}: {}", trail, ok);
                    owner[n] = None;
                }
                _ => {
                    let i = if op == 6 { 0 } else { 1 };
                    if alive[i] {
                        match op {
                            6 => p[i].finish(),
                            7 => p[i].panic(),
                            _ => {
                                let pid = p[i].pid;
                                d.call(move || Process::exit(pid, ExitReason::Kill));
                            }
                        }
                        alive[i] = false;
                        for o in owner.iter_mut() {
                            if *o == Some(i) {
                                *o = None;
                            }
                        }
                    }
                }
            }
            mc::settle();
            for n in 0..2 {
                let w = Process::whereis(names[n]);
                check!(w == owner[n].map(|i| p[i].pid), "history-whereis", "after {:?}: name {} found {} expected owner {:?}", trail, n, w.is_some(), owner[n]);
            }
            let mut l = Process::registered();
            l.sort();
            let want: Vec<String> = (0..2).filter(|n| owner[*n].is_some()).map(|n| names[n].to_string()).collect();
            check!(l == want, "history-registered", "after {:?}: {:?}", trail, l);
            // A message to the name reaches its owner only.
            for n in 0..2 {
                d.call(move || Process::send(["a", "b"][n], M::N(n as u32)));
            }
            mc::settle();
            for i in 0..2 {
                if alive[i] {
                    let got = p[i].exec(|| events()).unwrap();
                    let want: Vec<Ev> = (0..2).filter(|n| owner[*n] == Some(i)).map(|n| Ev::Msg(M::N(n as u32))).collect();
                    check!(got == want, "history-send", "after {:?}: {:?}", trail, got);
                }
            }
        }
        no_stray_panics(&["was not registered"]);
        mc::outcome(trail);
    })
}

/// Names that look alike are different names.
fn spellings() -> Scenario {
    seq("spellings", 100).run(|| {
        mc::settle();
        mc::explore();
        let long = "n".repeat(300);
        let names = ["x", "X", " x", "x ", "x\0", "", "xx", "0", "ß", "ss", &long, &long[1..]];
        let names: Vec<String> = names.iter().map(|n| n.to_string()).collect();
        let (i, j) = (mc::choose(names.len()), mc::choose(names.len()));
        let p: Vec<Agent> = names.iter().map(|_| Agent::spawn("p")).collect();
        mc::settle();
        for (a, n) in p.iter().zip(&names) {
            let (me, n) = (a.pid, n.clone());
            let r = a.call(move || Process::register(me, n).is_ok());
            check!(r == Some(true), "refused", "");
        }
        let mut owner: Vec<Option<Pid>> = p.iter().map(|a| Some(a.pid)).collect();
        let look = |owner: &Vec<Option<Pid>>, what: &str| {
            for (n, o) in names.iter().zip(owner) {
                check!(Process::whereis(n) == *o, "spelling", "{}: {:?} leads to {:?} instead of {:?}", what, n, Process::whereis(n), o);
            }
            let mut l = Process::registered();
            l.sort();
            let mut w: Vec<String> = names.iter().zip(owner).filter(|o| o.1.is_some()).map(|o| o.0.clone()).collect();
            w.sort();
            check!(l == w, "registered", "{}: {:?} instead of {:?}", what, l, w);
        };
        look(&owner, "all registered");
        let n = names[i].clone();
        p[0].call(move || Process::unregister(n));
        owner[i] = None;
        look(&owner, "one unregistered");
        p[j].finish();
        mc::settle();
        owner[j] = None;
        look(&owner, "one ended");
        let other = Agent::spawn("other");
        for k in [i, j] {
            if k == j && k == i {
                continue;
            }
            let (me, n) = (if k == i { other.pid } else { Agent::spawn("another").pid }, names[k].clone());
            mc::settle();
            let r = other.call(move || Process::register(me, n).is_ok());
            check!(r == Some(true), "refused", "");
            owner[k] = Some(me);
        }
        look(&owner, "taken again");
        no_stray_panics(&[]);
        mc::outcome((i, j));
    })
}
