//! C02: links propagate the end of a process to its partners, exactly once, in both directions.

use crate::util::*;

pub fn scenarios() -> Vec<Scenario> {
    let mut v = vec![link_race(), spawn_link(), both_end(), chain(), unlink_race()];
    v.push(history("histories", &[0, 1, 4, 6, 7, 12, 13, 14, 15, 16], if thorough() { 5 } else { 4 }));
    if thorough() {
        v.push(history("histories-all-pairs", &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16], 4));
    }
    v
}

fn reason_of(k: usize) -> ExitR {
    match k {
        0 => ExitR::Normal,
        1 => ExitR::from("boom"),
        _ => ExitR::Kill,
    }
}

async fn end_as(k: usize) {
    match k {
        0 => (),
        1 => panic!("boom"),
        _ => {
            Process::exit(Process::current(), ExitReason::Kill);
            std::future::pending::<()>().await
        }
    }
}

/// Records how a process ended, seen through a monitor that was installed before.
fn observe(pid: Pid) -> Shared<Option<ExitR>> {
    let r = Shared::new(None);
    let r2 = r.clone();
    proc("observer", async move {
        let _ = Process::monitor(pid);
        if let Ev::Down(_, _, e) = ev(Process::receive::<M>().await) {
            r2.set(Some(e));
        }
    });
    r
}

/// link() while the partner ends.
fn link_race() -> Scenario {
    sc("link-vs-exit", (2, 4), 6).run(|| {
        let (kind, traps, gate) = (Shared::new(0usize), Shared::new(false), Gate::new());
        let t = {
            let (kind, gate) = (kind.clone(), gate.clone());
            proc("target", async move {
                gate.wait().await;
                end_as(kind.get()).await
            })
        };
        let log = Shared::new(Vec::new());
        let a = {
            let (log, gate, traps) = (log.clone(), gate.clone(), traps.clone());
            proc("linker", async move {
                gate.wait().await;
                if traps.get() {
                    trap();
                }
                Process::link(t);
                collect(log).await;
            })
        };
        let a_end = observe(a);
        mc::settle();
        mc::explore();
        let k = mc::choose(3);
        kind.set(k);
        let tr = mc::choose(2) == 1;
        traps.set(tr);
        gate.open();
        mc::settle();
        let (log, end) = (log.get(), a_end.get());
        if tr {
            check!(end.is_none(), "trapping-ended", "a trapping process ended: {:?}", end);
            check!(log.len() == 1, "exit-count", "{} exit messages for one link (kind {})", log.len(), k);
            let Ev::Exit(p, r) = &log[0] else { mc::violation("exit-event", "not an exit message") };
            check!(*p == t, "exit-from", "exit message names another process");
            check!(*r == reason_of(k) || *r == ExitR::from("noproc"), "exit-reason", "{:?} for kind {}", r, k);
            mc::outcome((k, tr, r));
        } else {
            check!(log.is_empty(), "exit-message", "a process that does not trap exits got a message");
            match &end {
                None => check!(k == 0, "not-propagated", "the partner ended abnormally (kind {}), the linked process lives on", k),
                Some(r) => {
                    check!(*r == ExitR::from("noproc") || (k > 0 && *r == reason_of(k)), "exit-reason", "{:?} for kind {}", r, k)
                }
            }
            mc::outcome((k, tr, end));
        }
        no_stray_panics(&[]);
    })
}

/// spawn_link: the child ends at once, or the parent does.
fn spawn_link() -> Scenario {
    sc("spawn-link", (2, 4), 5).run(|| {
        let (kind, traps, gate) = (Shared::new(0usize), Shared::new(false), Gate::new());
        let log = Shared::new(Vec::new());
        let child: Shared<Option<Pid>> = Shared::new(None);
        let parent = {
            let (log, gate, traps, kind, child) = (log.clone(), gate.clone(), traps.clone(), kind.clone(), child.clone());
            proc("parent", async move {
                gate.wait().await;
                if traps.get() {
                    trap();
                }
                let k = kind.get();
                child.set(Some(Process::spawn_link(AssertSend(async move {
                    mc::set_task_name("child");
                    if k < 3 {
                        end_as(k).await
                    } else {
                        std::future::pending::<()>().await
                    }
                }))));
                if k == 3 {
                    panic!("boom");
                }
                if k == 4 {
                    return;
                }
                collect(log).await;
            })
        };
        let p_end = observe(parent);
        mc::settle();
        mc::explore();
        let k = mc::choose(5);
        kind.set(k);
        let tr = k < 3 && mc::choose(2) == 1;
        traps.set(tr);
        gate.open();
        mc::settle();
        let c = child.get().unwrap();
        let log = log.get();
        let end = p_end.get();
        let child_alive = Process::list().contains(&c);
        match k {
            0..=2 if tr => {
                check!(log == vec![Ev::Exit(c, reason_of(k))], "spawn-link-exit", "kind {}: {} messages", k, log.len());
                check!(end.is_none(), "trapping-ended", "{:?}", end);
            }
            0 => check!(end.is_none() && log.is_empty(), "normal-propagated", "a normal end reached a process that does not trap: {:?}", end),
            1 | 2 => check!(end == Some(reason_of(k)), "not-propagated", "kind {}: parent ended as {:?}", k, end),
            3 => check!(!child_alive, "not-propagated", "the parent panicked, its linked child lives on"),
            _ => check!(child_alive, "normal-propagated", "the parent returned, its linked child ended"),
        }
        no_stray_panics(&[]);
        mc::outcome((k, tr, end));
    })
}

/// Both ends of a link end at the same time: nobody hangs, a third linked party hears of each once.
fn both_end() -> Scenario {
    sc("both-end", (2, 3), 2).run(|| {
        let gate = Gate::new();
        let log = Shared::new(Vec::new());
        let hub: Shared<Option<Pid>> = Shared::new(None);
        {
            let (log, hub) = (log.clone(), hub.clone());
            proc("hub", async move {
                trap();
                hub.set(Some(Process::current()));
                collect(log).await;
            });
        }
        mc::settle();
        let h = hub.get().unwrap();
        let a = {
            let gate = gate.clone();
            proc("a", async move {
                Process::link(h);
                gate.wait().await;
                panic!("boom");
            })
        };
        let b = {
            let gate = gate.clone();
            proc("b", async move {
                Process::link(h);
                Process::link(a);
                gate.wait().await;
                Process::exit(Process::current(), "own");
                std::future::pending::<()>().await
            })
        };
        mc::settle();
        mc::explore();
        gate.open();
        mc::settle();
        let log = log.get();
        for (p, own) in [(a, "boom"), (b, "own")] {
            let n: Vec<_> = log.iter().filter(|e| matches!(e, Ev::Exit(q, _) if *q == p)).collect();
            check!(n.len() == 1, "exit-count", "{} exit messages from one process", n.len());
            let Ev::Exit(_, r) = n[0] else { unreachable!() };
            check!(*r == ExitR::from("boom") || *r == ExitR::from("own"), "exit-reason", "{:?} (own reason {})", r, own);
            check!(!Process::list().contains(&p), "zombie", "ended process still listed");
        }
        check!(log.len() == 2, "exit-count", "{} messages", log.len());
        no_stray_panics(&[]);
        let rs: Vec<_> = log.iter().map(|e| match e { Ev::Exit(p, r) => (*p == a, r.clone()), _ => unreachable!() }).collect();
        mc::outcome(rs);
    })
}

/// A chain of links: the abnormal end of one takes all down with its reason, up to a trapping one.
fn chain() -> Scenario {
    sc("chain", (2, 3), 3).run(|| {
        let gate = Gate::new();
        let kind = Shared::new(0usize);
        let log = Shared::new(Vec::new());
        let a = {
            let (gate, kind) = (gate.clone(), kind.clone());
            proc("a", async move {
                gate.wait().await;
                end_as(kind.get()).await
            })
        };
        let b = proc("b", async move {
            Process::link(a);
            std::future::pending::<()>().await
        });
        let c = proc("c", async move {
            Process::link(b);
            std::future::pending::<()>().await
        });
        {
            let log = log.clone();
            proc("d", async move {
                trap();
                Process::link(c);
                collect(log).await
            });
        }
        mc::settle();
        mc::explore();
        let k = mc::choose(3);
        kind.set(k);
        gate.open();
        mc::settle();
        let alive: Vec<bool> = [a, b, c].iter().map(|p| Process::list().contains(p)).collect();
        if k == 0 {
            check!(alive == vec![false, true, true], "normal-propagated", "{:?}", alive);
            check!(log.get().is_empty(), "exit-message", "unexpected message");
        } else {
            check!(alive == vec![false; 3], "not-propagated", "still there: {:?}", alive);
            check!(log.get() == vec![Ev::Exit(c, reason_of(k))], "exit-message", "end of the chain got {} messages", log.get().len());
        }
        no_stray_panics(&[]);
        mc::outcome(k);
    })
}

/// unlink while the partner ends, in both directions.
fn unlink_race() -> Scenario {
    sc("unlink-vs-exit", (2, 4), 4).run(|| {
        let (gate, who) = (Gate::new(), Shared::new(0usize));
        let logs: Vec<Shared<Vec<Ev>>> = (0..2).map(|_| Shared::new(Vec::new())).collect();
        let unlinked = Gate::new();
        // The partner: ends abnormally together with the unlink (0) or after it (1), or lives on (2).
        let t = {
            let (gate, who, unlinked, log) = (gate.clone(), who.clone(), unlinked.clone(), logs[0].clone());
            proc("partner", async move {
                trap();
                gate.wait().await;
                match who.get() {
                    0 => panic!("boom"),
                    1 => {
                        unlinked.wait().await;
                        panic!("boom")
                    }
                    _ => collect(log).await,
                }
            })
        };
        let a = {
            let (gate, who, unlinked, log) = (gate.clone(), who.clone(), unlinked.clone(), logs[1].clone());
            proc("unlinker", async move {
                trap();
                Process::link(t);
                gate.wait().await;
                Process::unlink(t);
                unlinked.open();
                if who.get() == 2 {
                    panic!("boom");
                }
                collect(log).await
            })
        };
        mc::settle();
        mc::explore();
        let w = mc::choose(3);
        who.set(w);
        gate.open();
        mc::settle();
        let (l0, l1) = (logs[0].get(), logs[1].get());
        match w {
            0 => {
                check!(l1.len() <= 1, "exit-count", "{} messages", l1.len());
                if let Some(e) = l1.first() {
                    check!(*e == Ev::Exit(t, ExitR::from("boom")), "exit-event", "{:?}", e);
                }
            }
            1 => check!(l1.is_empty(), "exit-after-unlink", "the end of a process reached one that had unlinked from it"),
            _ => check!(l0.is_empty(), "exit-after-unlink", "the end of the process that had unlinked reached the former partner"),
        }
        let _ = a;
        no_stray_panics(&[]);
        mc::outcome((w, l0.len(), l1.len()));
    })
}

/// Every history of link, unlink, trap and ends among three processes, against a model.
fn history(name: &'static str, ops: &'static [usize], depth: usize) -> Scenario {
    seq(name, 50).run(move || {
        let p: Vec<Agent> = ["p0", "p1", "p2"].iter().map(|n| Agent::spawn(n)).collect();
        mc::settle();
        mc::explore();
        let idx = |pid: Pid| p.iter().position(|a| a.pid == pid).unwrap();
        let mut links: BTreeSet<(usize, usize)> = BTreeSet::new();
        let mut traps = [false; 3];
        let mut end: [Option<ExitR>; 3] = [None, None, None];
        let mut queue: Vec<Vec<(usize, ExitR)>> = vec![Vec::new(); 3];
        let mut trail = Vec::new();
        let key = |a: usize, b: usize| (a.min(b), a.max(b));

        fn down(
            i: usize,
            r: ExitR,
            links: &mut BTreeSet<(usize, usize)>,
            traps: &[bool; 3],
            end: &mut [Option<ExitR>; 3],
            queue: &mut Vec<Vec<(usize, ExitR)>>,
        ) {
            if end[i].is_some() {
                return;
            }
            end[i] = Some(r.clone());
            let mine: Vec<_> = links.iter().copied().filter(|l| l.0 == i || l.1 == i).collect();
            for l in mine {
                links.remove(&l);
                let o = if l.0 == i { l.1 } else { l.0 };
                if traps[o] {
                    queue[o].push((i, r.clone()));
                } else if r != ExitR::Normal {
                    down(o, r.clone(), links, traps, end, queue);
                }
            }
        }

        for _ in 0..depth {
            // 0..6 link(i,j), 6..12 unlink(i,j), 12..14 trap, 14.. ends
            const PAIRS: [(usize, usize); 6] = [(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)];
            let op = ops[mc::choose(ops.len())];
            trail.push(op);
            if op < 12 {
                let (i, j) = PAIRS[op % 6];
                if end[i].is_none() {
                    let pid = p[j].pid;
                    if op < 6 {
                        p[i].call(move || Process::link(pid));
                        if end[j].is_none() {
                            links.insert(key(i, j));
                        } else if traps[i] {
                            queue[i].push((j, ExitR::from("noproc")));
                        } else {
                            down(i, ExitR::from("noproc"), &mut links, &traps, &mut end, &mut queue);
                        }
                    } else {
                        p[i].call(move || Process::unlink(pid));
                        links.remove(&key(i, j));
                    }
                }
            } else {
                let i = [0, 1, 0, 1, 2][op - 12];
                if end[i].is_none() {
                    match op {
                        12 | 13 => {
                            p[i].call(trap);
                            traps[i] = true;
                        }
                        14 => {
                            p[i].finish();
                            down(i, ExitR::Normal, &mut links, &traps, &mut end, &mut queue);
                        }
                        15 => {
                            p[i].panic();
                            down(i, ExitR::from("boom"), &mut links, &traps, &mut end, &mut queue);
                        }
                        _ => {
                            let pid = p[i].pid;
                            p[i].call(move || Process::exit(pid, ExitReason::Kill));
                            down(i, ExitR::Kill, &mut links, &traps, &mut end, &mut queue);
                        }
                    }
                }
            }
            mc::settle();
            for i in 0..3 {
                let alive = Process::list().contains(&p[i].pid);
                check!(
                    alive == end[i].is_none(),
                    "history-alive",
                    "after {:?}: process {} alive {} expected {}",
                    trail,
                    i,
                    alive,
                    end[i].is_none()
                );
                if alive {
                    let mut got: Vec<(usize, ExitR)> = p[i]
                        .exec(|| events())
                        .unwrap()
                        .into_iter()
                        .map(|e| match e {
                            Ev::Exit(q, r) => (idx(q), r),
                            o => mc::violation("history-event", &format!("{:?}", o)),
                        })
                        .collect();
                    got.sort();
                    let mut want = std::mem::take(&mut queue[i]);
                    want.sort();
                    check!(got == want, "history-exits", "after {:?}: process {} received {:?}, expected {:?}", trail, i, got, want);
                    // The list of links is symmetric and holds nothing but live partners.
                    let mut l: Vec<usize> = Process::info(p[i].pid).unwrap().links.into_iter().map(idx).filter(|j| end[*j].is_none()).collect();
                    l.sort();
                    let want: Vec<usize> = (0..3).filter(|j| *j != i && links.contains(&key(i, *j))).collect();
                    check!(l == want, "history-links", "after {:?}: process {} is linked to {:?}, expected {:?}", trail, i, l, want);
                }
            }
        }
        no_stray_panics(&[]);
        mc::outcome(trail);
    })
}
