//! C27: messages to processes of another node arrive once and in order as long as the connection lasts.

use crate::dist::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![accepted(), history(), names(), connecting(), two_senders(), loss(), second_try(), one_shot(), exits()]
}

/// Collects what arrives, for later.
fn keep(n: usize, nm: &'static str) -> (Pid, Shared<Vec<Ev>>) {
    let log = Shared::new(vec![]);
    let pid = proc_on(n, nm, collect(log.clone()));
    on(n, || Process::register(pid, nm).unwrap());
    (pid, log)
}

fn nums(log: &Shared<Vec<Ev>>) -> Vec<u32> {
    log.get()
        .iter()
        .map(|e| match e {
            Ev::Msg(M::N(n)) => *n,
            e => mc::violation("alien-message", &format!("{:?}", e)),
        })
        .collect()
}

/// Names of every kind, each to its own process, of the node that was named.
fn names() -> Scenario {
    seq("names", 4).run(move || {
        mc::settle();
        mc::explore();
        let conn = mc::choose(2) == 1;
        let many = mc::choose(2) == 1;
        mc::setup_begin();
        up(0);
        up(1);
        let (a, b) = (Rem::spawn(0, "a"), Rem::spawn(1, "b"));
        mc::settle();
        if conn {
            connect(&a, 1);
        }
        let mut texts: Vec<String> = ["", " ", "a", "A", "a ", " a", "ä", "a\u{308}", "a\0", "local", "a@b", "Pid<0, 1>", "\n"].iter().map(|s| s.to_string()).collect();
        texts.extend([250, 251, 255, 256, 1000, 65_535, 65_536, 70_000].map(|l| "x".repeat(l)));
        let spots = |n: usize| -> Vec<Shared<Vec<Ev>>> {
            texts
                .iter()
                .map(|t| {
                    let log = Shared::new(vec![]);
                    let pid = proc_on(n, "named", collect(log.clone()));
                    let t = t.clone();
                    on(n, move || Process::register(pid, t).unwrap());
                    log
                })
                .collect()
        };
        let (here, there) = (spots(0), spots(1));
        mc::setup_end();
        let _ = &b;
        let ts = texts.clone();
        a.post(move || async move {
            if !conn {
                Node::connect(node_of(1));
            }
            for (i, t) in ts.iter().enumerate() {
                let i = i as u32;
                if many {
                    Process::send(vec![Dest::from((t.clone(), node_of(1))), Dest::from(t.clone())], M::N(i));
                } else {
                    Process::send(Dest::from((t.clone(), node_of(1))), M::N(i));
                    Process::send(Dest::from(t.clone()), M::N(i));
                }
            }
        });
        mc::settle_for(SEC);
        for (i, t) in texts.iter().enumerate() {
            let (h, o) = (nums(&here[i]), nums(&there[i]));
            check!(h == [i as u32] && o == [i as u32], "name", "{:?} of {} bytes: {:?} there, {:?} here", t.chars().take(9).collect::<String>(), t.len(), o, h);
        }
        check!(connected(0, 1), "lost", "");
        quiet_conn();
        mc::outcome((conn, many));
    })
}

/// Every history of sends in all forms against lists.
fn history() -> Scenario {
    let depth = if thorough() { 4 } else { 3 };
    seq("histories", 500).run(move || {
        mc::settle();
        let (a, b) = pair();
        let (p, lp) = keep(1, "p");
        let (q, lq) = keep(1, "q");
        let (l, ll) = keep(0, "l");
        // An alias of a process of the other node, and one that works once.
        let (lx, als): (Shared<Vec<Ev>>, Shared<Vec<Reference>>) = (Shared::new(vec![]), Shared::new(vec![]));
        let (lx2, als2) = (lx.clone(), als.clone());
        proc_on(1, "x", async move {
            als2.push(Process::alias(false));
            als2.push(Process::alias(true));
            collect(lx2).await;
        });
        mc::settle();
        let (rp, rq) = (move_to(1, 0, &p), move_to(1, 0, &q));
        let (many, once) = (move_to(1, 0, &als.get()[0]), move_to(1, 0, &als.get()[1]));
        mc::explore();
        // What is expected: p, q, l, x.
        let mut want: [Vec<u32>; 4] = Default::default();
        let mut used = false;
        let mut trail = vec![];
        for i in 0..depth {
            let op = mc::choose(12);
            trail.push(op);
            let n = i as u32 + 1;
            let to: Vec<usize> = match op {
                0 => vec![0],
                1 => vec![0],
                2 => vec![3],
                3 => vec![3; !used as usize],
                4 => vec![0, 1],
                5 => vec![0, 2],
                6 => vec![2, 1],
                7 => vec![0, 0],
                8 => [vec![0, 3], vec![3; !used as usize]].concat(),
                9 => vec![],
                10 => vec![2, 0, 1, 3],
                _ => vec![2],
            };
            used |= op == 3 || op == 8;
            for t in to {
                want[t].push(n);
            }
            a.call(move || match op {
                0 => Process::send(rp, M::N(n)),
                1 => Process::send(("p", node_of(1)), M::N(n)),
                2 => Process::send(many, M::N(n)),
                3 => Process::send(once, M::N(n)),
                4 => Process::send(&[rp, rq][..], M::N(n)),
                5 => Process::send(vec![Dest::from(rp), Dest::from(l)], M::N(n)),
                6 => Process::send(vec![Dest::from("l"), Dest::from(("q", node_of(1)))], M::N(n)),
                7 => Process::send(vec![Dest::from(rp), Dest::from(("p", node_of(1)))], M::N(n)),
                8 => Process::send(vec![Dest::from(rp), Dest::from(many), Dest::from(once)], M::N(n)),
                9 => Process::send(vec![Dest::from(("nobody", node_of(1))), Dest::from("nobody")], M::N(n)),
                10 => Process::send(vec![Dest::from(l), Dest::from(rp), Dest::from(("q", node_of(1))), Dest::from(many)], M::N(n)),
                _ => Process::send(("l", Node::current()), M::N(n)),
            });
            if mc::choose(2) == 1 {
                mc::settle();
            }
        }
        mc::settle();
        let got = [nums(&lp), nums(&lq), nums(&ll), nums(&lx)];
        check!(got == want, "delivery", "after {:?}: received {:?}, sent {:?}", trail, got, want);
        check!(connected(0, 1) && connected(1, 0), "connection-lost", "");
        let _ = b;
        no_stray_panics(&[]);
        mc::outcome(trail);
    })
}

/// Messages that are sent while the connection is made.
fn connecting() -> Scenario {
    sc("connecting", (1, 2), 4).run(|| {
        mc::settle();
        up(0);
        up(1);
        let (p, log) = keep(1, "p");
        mc::settle();
        let rp = move_to(1, 0, &p);
        mc::explore();
        let by_name = mc::choose(2) == 1;
        let via = mc::choose(3);
        let to = move || if by_name { Dest::from(("p", node_of(1))) } else { Dest::from(rp) };
        let sent: Shared<bool> = Shared::new(false);
        let s = sent.clone();
        proc_on(0, "sender", async move {
            match via {
                0 => Node::connect(node_of(1)),
                1 => {
                    Node::monitor(node_of(1));
                }
                _ => {
                    Process::monitor(to());
                }
            }
            for n in 1..=3 {
                Process::send(to(), M::N(n));
                if n < 3 {
                    tokio::task::yield_now().await;
                }
            }
            s.set(true);
            std::future::pending::<()>().await;
        });
        mc::settle();
        check!(sent.get() && connected(0, 1) && connected(1, 0), "not-connected", "{:?} {:?}", state(0, 1), state(1, 0));
        check!(nums(&log) == [1, 2, 3], "pending-messages", "sent 1, 2, 3 while connecting, received {:?}", nums(&log));
        no_stray_panics(&[]);
        mc::outcome((by_name, via));
    })
}

/// Two processes of one node and one of the other send to each other at once.
fn two_senders() -> Scenario {
    sc("two-senders", (2, 3), 4).run(|| {
        mc::settle();
        let (_a, _b) = pair();
        let (p, lp) = keep(1, "p");
        let (l, ll) = keep(0, "l");
        let (rp, rl) = (move_to(1, 0, &p), move_to(0, 1, &l));
        mc::explore();
        for s in 0..2u32 {
            proc_on(0, "sender", async move {
                Process::send(rp, M::N(s * 10 + 1));
                Process::send(("p", node_of(1)), M::N(s * 10 + 2));
            });
        }
        proc_on(1, "back", async move {
            Process::send(rl, M::N(1));
            Process::send(("l", node_of(0)), M::N(2));
        });
        mc::settle();
        let got = nums(&lp);
        for s in 0..2u32 {
            let own: Vec<u32> = got.iter().copied().filter(|n| n / 10 == s).collect();
            check!(own == [s * 10 + 1, s * 10 + 2], "order", "received {:?}", got);
        }
        check!(got.len() == 4 && nums(&ll) == [1, 2], "delivery", "received {:?} and {:?}", got, nums(&ll));
        no_stray_panics(&[]);
        mc::outcome(got);
    })
}

/// The connection ends in the middle: no message arrives twice, out of order, or after a gap while
/// the same connection lasts; a new connection carries what is sent after it was asked for.
fn loss() -> Scenario {
    sc("loss", (1, 2), 6).run(|| {
        mc::settle();
        let (a, _b) = pair();
        let (p, log) = keep(1, "p");
        let rp = move_to(1, 0, &p);
        mc::settle();
        mc::explore();
        let how = mc::choose(5);
        proc_on(0, "sender", async move {
            for n in 1..=3 {
                Process::send(rp, M::N(n));
                tokio::task::yield_now().await;
            }
        });
        match how {
            0 => mcnet::reset(0),
            1 => {
                a.call(|| Node::disconnect(node_of(1)));
            }
            2 => {
                a.call(|| Node::forget(node_of(1)));
            }
            3 => {
                let r = Rem::spawn(1, "r");
                r.call(|| Node::disconnect(node_of(0)));
            }
            _ => mcnet::partition(0),
        }
        mc::settle();
        if how == 4 {
            mc::settle_for(200 * SEC);
        }
        let first = nums(&log);
        check!([1, 2, 3].starts_with(&first), "gap", "of 1, 2, 3 received {:?}", first);
        // Again. A forgotten node has new identifiers.
        let mark = first.len();
        let rp = if how == 2 { move_to(1, 0, &p) } else { rp };
        a.call(move || {
            Node::connect(node_of(1));
            Process::send(rp, M::N(11));
            Process::send(("p", node_of(1)), M::N(12));
        });
        mc::settle();
        let late = nums(&log)[mark..].to_vec();
        let late: Vec<u32> = late.into_iter().filter(|n| *n > 10).collect();
        check!(nums(&log).len() == mark + late.len(), "late", "{:?} after the connection was lost with {:?}", nums(&log), first);
        check!(late == [11, 12], "reconnect", "after reconnecting received {:?}, {:?} {:?}", late, state(0, 1), state(1, 0));
        quiet_conn();
        mc::outcome((how, first));
    })
}

/// What was sent towards a connection that was not made does not come with a later one.
fn second_try() -> Scenario {
    sc("second-try", (1, 2), 12).run(|| {
        mc::settle();
        mc::explore();
        mc::setup_begin();
        let (how, by_name) = (mc::choose(6), mc::choose(2) == 1);
        up(0);
        up(1);
        let a = Rem::spawn(0, "a");
        let (p, log) = keep(1, "p");
        let rp = move_to(1, 0, &p);
        mc::settle();
        mcnet::blackhole(addr(1));
        mc::setup_end();
        a.call(move || {
            Node::connect(node_of(1));
            Process::send(rp, M::N(1));
            Process::send(("p", node_of(1)), M::N(2));
        });
        mc::settle();
        if how < 4 {
            match how {
                0 => mc::settle_for(20 * SEC),
                1 => {
                    a.call(|| Node::disconnect(node_of(1)));
                }
                2 => {
                    a.call(|| Node::forget(node_of(1)));
                }
                _ => {
                    a.call(|| Node::stop());
                }
            }
            mc::settle();
            check!(!connected(0, 1) && state(0, 1) != Some(NodeState::Pending), "attempt-goes-on", "{:?}", state(0, 1));
            mc::quiet(|| {
                mc::settle_for(100 * SEC);
                mcnet::heal();
                if how == 3 {
                    up(0);
                    mc::settle();
                }
            });
        } else {
            mcnet::heal();
        }
        let wire = on(1, || rmp_serde::to_vec_named(&p).unwrap());
        a.call(move || {
            // Or at once.
            match how {
                4 => Node::disconnect(node_of(1)),
                5 => Node::forget(node_of(1)),
                _ => (),
            }
            // A forgotten node has new identifiers.
            let rp: Pid = rmp_serde::from_slice(&wire).unwrap();
            Node::connect(node_of(1));
            for n in 11..=13 {
                if by_name {
                    Process::send(("p", node_of(1)), M::N(n));
                } else {
                    Process::send(rp, M::N(n));
                }
            }
        });
        mc::settle();
        check!(connected(0, 1) && connected(1, 0), "not-connected", "{:?} {:?}", state(0, 1), state(1, 0));
        check!(nums(&log) == [11, 12, 13], "late", "({}) sent 1, 2 without and 11, 12, 13 with a connection: {:?}", how, nums(&log));
        quiet_conn();
        mc::outcome((how, by_name));
    })
}

/// A one-shot alias used from both nodes at once.
fn one_shot() -> Scenario {
    sc("one-shot-alias", (2, 4), 2).run(|| {
        mc::settle();
        let (_a, _b) = pair();
        let (log, al): (Shared<Vec<Ev>>, Shared<Option<Reference>>) = (Shared::new(vec![]), Shared::new(None));
        let (l2, a2) = (log.clone(), al.clone());
        proc_on(1, "x", async move {
            a2.set(Some(Process::alias(true)));
            collect(l2).await;
        });
        mc::settle();
        let r = al.get().unwrap();
        let rr = move_to(1, 0, &r);
        mc::explore();
        proc_on(0, "far", async move {
            Process::send(rr, M::N(1));
            Process::send(rr, M::N(2));
        });
        proc_on(1, "near", async move { Process::send(r, M::N(3)) });
        mc::settle();
        let got = nums(&log);
        check!(got == [1] || got == [3], "one-shot", "received {:?}", got);
        no_stray_panics(&[]);
        mc::outcome(got);
    })
}

/// Exit signals to another node keep their place among the messages, and act like local ones.
fn exits() -> Scenario {
    sc("exit-signals", (2, 3), 9).run(|| {
        mc::settle();
        let (_a, _b) = pair();
        let log = Shared::new(vec![]);
        mc::explore();
        let trapping = mc::choose(2) == 1;
        let reason = [ExitReason::Normal, ExitReason::Kill, ExitReason::from("bad")][mc::choose(3)].clone();
        let end: Shared<Vec<ExitR>> = Shared::new(vec![]);
        let ready = Gate::new();
        let (l2, r2) = (log.clone(), ready.clone());
        let p = mc::quiet(|| {
            let p = proc_on(1, "p", async move {
                if trapping {
                    trap();
                }
                r2.open();
                collect(l2).await;
            });
            let e2 = end.clone();
            proc_on(1, "w", async move {
                Process::monitor(p);
                if let Message::System(SystemMessage::ProcessDown(_, _, r)) = Process::receive::<M>().await {
                    e2.push(r.into());
                }
            });
            mc::settle();
            p
        });
        let rp = move_to(1, 0, &p);
        let (from, r2): (Shared<Option<Pid>>, ExitReason) = (Shared::new(None), reason.clone());
        let f2 = from.clone();
        proc_on(0, "killer", async move {
            f2.set(Some(Process::current()));
            Process::send(rp, M::N(1));
            Process::exit(rp, r2);
            Process::send(rp, M::N(2));
        });
        mc::settle();
        let sender = move_to(0, 1, &from.get().unwrap());
        let got = log.get();
        let r = ExitR::from(reason.clone());
        let dies = match r {
            ExitR::Normal => false,
            ExitR::Kill => true,
            _ => !trapping,
        };
        if dies {
            check!(end.get() == vec![r.clone()], "exit-reason", "{:?} instead of {:?}", end.get(), r);
            // It may be in the middle of a step.
            check!([Ev::Msg(M::N(1)), Ev::Msg(M::N(2))].starts_with(&got), "past-exit", "{:?}", got);
            check!(!alive_on(1, p), "survived", "");
        } else {
            let mut want = vec![Ev::Msg(M::N(1)), Ev::Msg(M::N(2))];
            if trapping {
                want.insert(1, Ev::Exit(sender, r.clone()));
            }
            check!(alive_on(1, p) && end.get().is_empty(), "died", "{:?}", end.get());
            check!(got == want, "exit-order", "{:?} instead of {:?}", got, want);
        }
        no_stray_panics(&[]);
        mc::outcome((trapping, format!("{:?}", reason), got.len()));
    })
}

/// A process of either node waits for the connection to be listed, or for some steps of everybody else, and sends.
fn accepted() -> Scenario {
    sc("just-connected", (1, 2), 4).run(|| {
        mc::settle();
        up(0);
        up(1);
        let a = Rem::spawn(0, "a");
        let logs = [keep(0, "p"), keep(1, "p")];
        mc::settle();
        let pids = [move_to(0, 1, &logs[0].0), move_to(1, 0, &logs[1].0)];
        mc::explore();
        let (who, by_name) = (mc::choose(2), mc::choose(2) == 1);
        // Both send as soon as they see the connection; or one sends after some steps.
        let steps = if who == 0 { mc::choose(16) } else { 0 };
        let (sent, asked) = (Shared::new([false; 2]), Shared::new(false));
        for n in 0..2 {
            if steps > 0 && n == 1 {
                continue;
            }
            let (sent, asked, to) = (sent.clone(), asked.clone(), pids[1 - n]);
            proc_on(n, "sender", async move {
                for i in 0..200 {
                    if if steps > 0 { i >= steps && asked.get() } else { Node::list_by_state(NodeState::Connected).contains(&node_of(1 - n)) } {
                        for k in 0..3 {
                            Process::send(if by_name { Dest::from(("p", node_of(1 - n))) } else { Dest::from(to) }, M::N(k));
                        }
                        sent.with(|s| s[n] = true);
                        break;
                    }
                    tokio::task::yield_now().await;
                }
                std::future::pending::<()>().await;
            });
        }
        let go = || {
            let asked = asked.clone();
            a.post(move || async move {
                Node::connect(node_of(1));
                asked.set(true);
            })
        };
        if who == 0 {
            go();
        } else {
            // The senders look before anything has happened.
            proc_on(0, "connect", async {
                tokio::task::yield_now().await;
                Node::connect(node_of(1));
            });
        }
        mc::settle();
        check!(connected(0, 1) && connected(1, 0), "not-connected", "{:?} {:?}", state(0, 1), state(1, 0));
        let sent = sent.get();
        for n in 0..2 {
            let want: &[u32] = if sent[1 - n] { &[0, 1, 2] } else { &[] };
            check!(nums(&logs[n].1) == want, "lost", "node {} received {:?} instead of {:?}", n, nums(&logs[n].1), want);
        }
        no_stray_panics(&[]);
        mc::outcome((who, by_name, steps, sent));
    })
}
