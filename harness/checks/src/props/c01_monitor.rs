//! C01: a monitor reports the end of its target exactly once, unless it was removed.

use crate::util::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![
        race(),
        race_named(),
        spawned(),
        demonitor_race(),
        two_watchers(),
        watcher_dies(),
        set_aside(),
        history(),
    ]
}

fn reason_of(k: usize) -> ExitR {
    match k {
        0 => ExitR::Normal,
        1 => ExitR::from("boom"),
        2 => ExitR::from("own"),
        3 => ExitR::Kill,
        _ => ExitR::from("other"),
    }
}

/// How a target ends: 0 returns, 1 panics, 2 exits itself, 3 is killed, 4 gets an exit signal.
fn target(kind: Shared<usize>, gate: Gate) -> Pid {
    proc("target", async move {
        gate.wait().await;
        match kind.get() {
            0 => (),
            1 => panic!("boom"),
            2 => {
                Process::exit(Process::current(), "own");
                std::future::pending::<()>().await
            }
            _ => std::future::pending::<()>().await,
        }
    })
}

fn killer(pid: Pid, kind: Shared<usize>, gate: Gate) {
    proc("killer", async move {
        gate.wait().await;
        match kind.get() {
            3 => Process::exit(pid, ExitReason::Kill),
            4 => Process::exit(pid, "other"),
            _ => (),
        }
    });
}

fn expect_one(log: &[Ev], dest: DestR, mref: Option<Reference>, k: usize, noproc: bool) -> ExitR {
    check!(log.len() == 1, "monitor-count", "expected one Down, got {} events (exit kind {})", log.len(), k);
    let Ev::Down(d, r, e) = &log[0] else { mc::violation("monitor-event", "not a Down message") };
    check!(*d == dest, "monitor-dest", "Down names another destination");
    check!(Some(*r) == mref, "monitor-ref", "Down carries another reference");
    check!(
        *e == reason_of(k) || (noproc && *e == ExitR::from("noproc")),
        "monitor-reason",
        "{:?} for exit kind {}",
        e,
        k
    );
    e.clone()
}

/// A process starts to monitor another one while that one ends.
fn race() -> Scenario {
    sc("monitor-vs-exit", (2, 4), 8).run(|| race_body(false))
}

/// The same, monitoring a registered name.
fn race_named() -> Scenario {
    sc("monitor-name-vs-exit", (2, 4), 8).run(|| race_body(true))
}

fn race_body(named: bool) {
    let (kind, gate, go) = (Shared::new(0usize), Gate::new(), Gate::new());
    let t = target(kind.clone(), gate.clone());
    killer(t, kind.clone(), gate.clone());
    if named {
        Process::register(t, "t").unwrap();
    }
    let log = Shared::new(Vec::new());
    let mref: Shared<Option<Reference>> = Shared::new(None);
    {
        let (log, mref, go) = (log.clone(), mref.clone(), go.clone());
        proc("watcher", async move {
            go.wait().await;
            mref.set(Some(if named { Process::monitor("t") } else { Process::monitor(t) }));
            collect(log).await;
        });
    }
    mc::settle();
    mc::explore();
    let k = mc::choose(5);
    kind.set(k);
    gate.open();
    go.open();
    mc::settle();
    let dest = if named { DestR::Name("t".into(), true) } else { DestR::Pid(t) };
    let e = expect_one(&log.get(), dest, mref.get(), k, true);
    no_stray_panics(&[]);
    mc::outcome((k, e));
}

/// spawn_monitor of a process that ends at once: the real reason, never noproc.
fn spawned() -> Scenario {
    sc("spawn-monitor", (2, 4), 3).run(|| {
        let go = Gate::new();
        let log = Shared::new(Vec::new());
        let kind = Shared::new(0usize);
        let res = Shared::new(None);
        {
            let (log, go, kind, res) = (log.clone(), go.clone(), kind.clone(), res.clone());
            proc("parent", async move {
                go.wait().await;
                let g = Gate::new();
                g.open();
                let k2 = kind.clone();
                let pm = Process::spawn_monitor(AssertSend(async move {
                    mc::set_task_name("child");
                    match k2.get() {
                        0 => (),
                        1 => panic!("boom"),
                        _ => {
                            Process::exit(Process::current(), "own");
                            std::future::pending::<()>().await
                        }
                    }
                }));
                res.set(Some(pm));
                collect(log).await;
            });
        }
        mc::settle();
        mc::explore();
        let k = mc::choose(3);
        kind.set(k);
        go.open();
        mc::settle();
        let (pid, mref) = res.get().unwrap();
        let e = expect_one(&log.get(), DestR::Pid(pid), Some(mref), k, false);
        no_stray_panics(&[]);
        mc::outcome((k, e));
    })
}

/// demonitor while the target ends: nothing arrives afterwards, whatever was received in between.
fn demonitor_race() -> Scenario {
    sc("demonitor-vs-exit", (2, 4), 4).run(|| {
        let (kind, gate, go) = (Shared::new(0usize), Gate::new(), Gate::new());
        let t = target(kind.clone(), gate.clone());
        Process::register(t, "t").unwrap();
        let before = Shared::new(Vec::new());
        let after = Shared::new(Vec::new());
        let mode = Shared::new(0usize);
        {
            let (before, after, go, mode) = (before.clone(), after.clone(), go.clone(), mode.clone());
            proc("watcher", async move {
                let r1 = Process::monitor(t);
                let r2 = Process::monitor_alias("t", true);
                go.wait().await;
                // A selective receive that looks at what is there without taking it.
                if mode.get() >= 1 {
                    let _ = poll_once(Process::receiver().for_message::<M>().select(|m| matches!(m, Message::User(M::Go)))).await;
                }
                if mode.get() >= 2 {
                    for e in events().await {
                        before.push(e);
                    }
                }
                Process::demonitor(r1);
                Process::demonitor(r2);
                collect(after).await;
            });
        }
        mc::settle();
        mc::explore();
        let k = mc::choose(2);
        kind.set(k);
        let m = mc::choose(3);
        mode.set(m);
        gate.open();
        go.open();
        mc::settle();
        check!(after.get().is_empty(), "down-after-demonitor", "{} notifications were received after demonitor", after.get().len());
        check!(before.get().len() <= 2, "monitor-count", "{} notifications for two monitors", before.get().len());
        no_stray_panics(&[]);
        mc::outcome((k, m, before.get().len()));
    })
}

/// Two watchers, one of which removes its monitor: the other one is not affected.
fn two_watchers() -> Scenario {
    sc("two-watchers", (2, 3), 2).run(|| {
        let (kind, gate, go) = (Shared::new(0usize), Gate::new(), Gate::new());
        let t = target(kind.clone(), gate.clone());
        let logs: Vec<Shared<Vec<Ev>>> = (0..2).map(|_| Shared::new(Vec::new())).collect();
        let refs: Vec<Shared<Option<Reference>>> = (0..2).map(|_| Shared::new(None)).collect();
        {
            let (go, log, mref) = (go.clone(), logs[0].clone(), refs[0].clone());
            proc("leaver", async move {
                mref.set(Some(Process::monitor(t)));
                go.wait().await;
                Process::demonitor(mref.get().unwrap());
                collect(log).await;
            });
        }
        {
            let (go, log, mref) = (go.clone(), logs[1].clone(), refs[1].clone());
            proc("stayer", async move {
                go.wait().await;
                mref.set(Some(Process::monitor(t)));
                collect(log).await;
            });
        }
        mc::settle();
        mc::explore();
        gate.open();
        go.open();
        mc::settle();
        check!(logs[0].get().is_empty(), "down-after-demonitor", "a notification after demonitor");
        let e = expect_one(&logs[1].get(), DestR::Pid(t), refs[1].get(), 0, true);
        no_stray_panics(&[]);
        mc::outcome(e);
    })
}

/// A watcher that ends takes its monitors with it; others still get theirs.
fn watcher_dies() -> Scenario {
    sc("watcher-ends", (2, 3), 1).run(|| {
        let (kind, gate, go) = (Shared::new(1usize), Gate::new(), Gate::new());
        let t = target(kind.clone(), gate.clone());
        let log = Shared::new(Vec::new());
        let mref = Shared::new(None);
        {
            let (log, mref) = (log.clone(), mref.clone());
            proc("stayer", async move {
                mref.set(Some(Process::monitor(t)));
                collect(log).await;
            });
        }
        {
            let go = go.clone();
            proc("leaver", async move {
                let _ = Process::monitor(t);
                go.wait().await;
            });
        }
        mc::settle();
        mc::explore();
        gate.open();
        go.open();
        mc::settle();
        let e = expect_one(&log.get(), DestR::Pid(t), mref.get(), 1, false);
        no_stray_panics(&[]);
        mc::outcome(e);
    })
}

/// Every history of monitor, demonitor, ends and receives up to a length, against a model.
fn history() -> Scenario {
    let depth = if thorough() { 6 } else { 4 };
    seq("histories", 50).run(move || {
        let w = Agent::spawn("watcher");
        let t = [Agent::spawn("t1"), Agent::spawn("t2")];
        mc::settle();
        Process::register(t[0].pid, "t1").unwrap();
        mc::explore();

        #[derive(Clone)]
        struct Mon {
            r: Reference,
            t: usize,
            dest: DestR,
            active: bool,
        }
        let mut mons: Vec<Mon> = Vec::new();
        let mut ended: [Option<ExitR>; 2] = [None, None];
        let mut queue: Vec<Ev> = Vec::new();
        let mut trail = Vec::new();

        for _ in 0..depth {
            let op = mc::choose(10);
            trail.push(op);
            match op {
                0 | 1 | 2 => {
                    let i = op / 2;
                    let pid = t[i].pid;
                    let (r, dest) = if op == 1 {
                        (w.call(|| Process::monitor("t1")).unwrap(), DestR::Name("t1".into(), true))
                    } else {
                        (w.call(move || Process::monitor(pid)).unwrap(), DestR::Pid(pid))
                    };
                    let i = if op == 1 { 0 } else { i };
                    let gone = ended[i].is_some();
                    if gone {
                        queue.push(Ev::Down(dest.clone(), r, ExitR::from("noproc")));
                    }
                    mons.push(Mon { r, t: i, dest, active: !gone });
                }
                3 | 4 => {
                    let m = if op == 3 { mons.first().cloned() } else { mons.last().cloned() };
                    if let Some(m) = m {
                        mons.retain(|x| x.r != m.r);
                        queue.retain(|e| !matches!(e, Ev::Down(_, r, _) if *r == m.r));
                        w.call(move || Process::demonitor(m.r));
                    }
                }
                5 | 6 | 7 => {
                    let i = if op == 7 { 1 } else { 0 };
                    let pid = t[i].pid;
                    if ended[i].is_none() {
                        let r = match op {
                            5 => {
                                t[i].finish();
                                ExitR::Normal
                            }
                            6 => {
                                w.call(move || Process::exit(pid, "sig"));
                                ExitR::from("sig")
                            }
                            _ => {
                                t[i].panic();
                                ExitR::from("boom")
                            }
                        };
                        ended[i] = Some(r.clone());
                        for m in mons.iter_mut().filter(|m| m.t == i && m.active) {
                            m.active = false;
                            queue.push(Ev::Down(m.dest.clone(), m.r, r.clone()));
                        }
                    }
                }
                8 => {
                    mc::settle();
                    let mut got = w.exec(|| events()).unwrap();
                    got.sort();
                    queue.sort();
                    check!(got == queue, "history", "after {:?}: received {:?}, expected {:?}", trail, got, queue);
                    queue.clear();
                }
                _ => {
                    mc::settle();
                    w.exec(|| async {
                        let _ = poll_once(Process::receiver().for_message::<M>().select(|_| false)).await;
                    });
                }
            }
            mc::settle();
        }
        let mut got = w.exec(|| events()).unwrap();
        got.sort();
        queue.sort();
        check!(got == queue, "history", "after {:?}: received {:?}, expected {:?}", trail, got, queue);
        no_stray_panics(&[]);
        mc::outcome(trail);
    })
}

/// Several reports, some of them set aside by a selective receive, some still on their way: removing monitors takes theirs only.
fn set_aside() -> Scenario {
    seq("set-aside", 200).run(|| {
        mc::settle();
        mc::explore();
        let w = Agent::spawn("watcher");
        let ts: Vec<Agent> = (0..3).map(|_| Agent::spawn("target")).collect();
        let twice = mc::choose(2) == 1;
        // 0: before the selective receive, 1: after it, 2: not at all.
        let when: Vec<usize> = (0..3).map(|_| mc::choose(3)).collect();
        let gone = mc::choose(8);
        let pids: Vec<Pid> = ts.iter().map(|t| t.pid).collect();
        let refs = w
            .call(move || {
                let mut refs: Vec<Reference> = pids.iter().map(|p| Process::monitor(*p)).collect();
                if twice {
                    refs.push(Process::monitor(pids[1]));
                }
                refs
            })
            .unwrap();
        let mut want: Vec<Ev> = vec![];
        let pid = w.pid;
        let sender = Agent::spawn("sender");
        for round in 0..2 {
            for i in [2, 0, 1] {
                if when[i] == round {
                    ts[i].panic();
                    mc::settle();
                    for (k, r) in refs.iter().enumerate() {
                        if (k == i || (k == 3 && i == 1)) && gone >> i & 1 == 0 {
                            want.push(Ev::Down(DestR::Pid(ts[i].pid), *r, ExitR::from("boom")));
                        } else if k == 3 && i == 1 {
                            want.push(Ev::Down(DestR::Pid(ts[1].pid), *r, ExitR::from("boom")));
                        }
                    }
                    let n = i as u32;
                    sender.call(move || Process::send(pid, M::N(n)));
                    want.push(Ev::Msg(M::N(n)));
                }
            }
            if round == 0 {
                sender.call(move || Process::send(pid, M::N(9)));
                let got = w.exec(|| Process::receiver().for_message::<M>().select(|m| matches!(m, Message::User(M::N(9)))));
                check!(got.is_some(), "select", "nothing received");
            }
        }
        let r2 = refs.clone();
        w.call(move || (0..3).filter(|i| gone >> i & 1 == 1).for_each(|i| Process::demonitor(r2[i])));
        let got = w.exec(events).unwrap();
        check!(got == want, "set-aside", "ended {:?}, removed {:#b}, twice {}: received {:?} instead of {:?}", when, gone, twice, got, want);
        for t in &ts {
            t.panic();
        }
        mc::settle();
        let mut late: Vec<Reference> = w.exec(events).unwrap().into_iter().filter_map(|e| if let Ev::Down(_, r, _) = e { Some(r) } else { None }).collect();
        let left: Vec<Reference> = (0..refs.len()).filter(|k| when[if *k == 3 { 1 } else { *k }] == 2 && (*k == 3 || gone >> k & 1 == 0)).map(|k| refs[k]).collect();
        late.sort();
        check!(late == left, "later", "ended {:?}, removed {:#b}: {:?} instead of {:?}", when, gone, late, left);
        no_stray_panics(&[]);
        mc::outcome((when, gone, twice));
    })
}
