//! C06: an alias delivers while it is active, a reply alias exactly one message.

use crate::dist::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![one_shot(), unalias_race(), monitor_alias(), owner_ends(), history(), far()]
}

/// Several senders use a reply alias at once.
fn one_shot() -> Scenario {
    sc("reply-alias", (2, 4), 3).run(|| {
        let gate = Gate::new();
        let log = Shared::new(Vec::new());
        let alias: Shared<Option<Reference>> = Shared::new(None);
        {
            let (log, alias) = (log.clone(), alias.clone());
            proc("owner", async move {
                alias.set(Some(Process::alias(true)));
                collect(log).await
            });
        }
        mc::settle();
        let a = alias.get().unwrap();
        for i in 0..3 {
            let gate = gate.clone();
            proc("sender", async move {
                gate.wait().await;
                if i == 2 {
                    Process::send(vec![Dest::from("nobody"), Dest::from(a)], M::N(i));
                } else {
                    Process::send(a, M::N(i));
                }
            });
        }
        mc::settle();
        mc::explore();
        gate.open();
        mc::settle();
        check!(log.get().len() == 1, "reply-alias", "{} messages through a reply alias", log.get().len());
        no_stray_panics(&[]);
        mc::outcome(log.get());
    })
}

/// unalias against a message through the alias: exactly one of them wins for a reply alias.
fn unalias_race() -> Scenario {
    sc("unalias-vs-send", (3, 5), 4).run(|| {
        let gate = Gate::new();
        let log = Shared::new(Vec::new());
        let alias: Shared<Option<Reference>> = Shared::new(None);
        let reply = Shared::new(false);
        let res = Shared::new(None);
        let start = Gate::new();
        let done = Gate::new();
        {
            let (log, alias, reply, res, gate, start, done) =
                (log.clone(), alias.clone(), reply.clone(), res.clone(), gate.clone(), start.clone(), done.clone());
            proc("owner", async move {
                start.wait().await;
                alias.set(Some(Process::alias(reply.get())));
                gate.wait().await;
                res.set(Some(Process::unalias(alias.get().unwrap())));
                done.open();
                collect(log).await
            });
        }
        {
            let (alias, gate, done) = (alias.clone(), gate.clone(), done.clone());
            proc("sender", async move {
                gate.wait().await;
                Process::send(alias.get().unwrap(), M::N(1));
                done.wait().await;
                // Deactivated for sure.
                Process::send(alias.get().unwrap(), M::N(2));
            });
        }
        mc::explore();
        reply.set(mc::choose(2) == 1);
        start.open();
        mc::settle();
        gate.open();
        mc::settle();
        let got = log.get();
        check!(got.iter().all(|e| *e == Ev::Msg(M::N(1))) && got.len() <= 1, "after-unalias", "{:?}", got);
        let un = res.get().unwrap();
        if reply.get() {
            check!(un != (got.len() == 1), "reply-alias", "unalias returned {}, {} messages were delivered", un, got.len());
        } else {
            check!(un, "unalias-result", "an active alias, but unalias returned false");
        }
        no_stray_panics(&[]);
        mc::outcome((reply.get(), un, got.len()));
    })
}

/// The alias of a monitor: the reply arrives before the Down, nothing after it.
fn monitor_alias() -> Scenario {
    sc("monitor-alias", (2, 4), 4).run(|| {
        let gate = Gate::new();
        let log = Shared::new(Vec::new());
        let mode = Shared::new(0usize);
        let r: Shared<Option<Reference>> = Shared::new(None);
        let start = Gate::new();
        let down = Gate::new();
        let t = {
            let (gate, r, mode) = (gate.clone(), r.clone(), mode.clone());
            proc("target", async move {
                gate.wait().await;
                if mode.get() & 1 == 1 {
                    Process::send(r.get().unwrap(), M::N(1));
                }
            })
        };
        {
            let (log, r, mode, start, down) = (log.clone(), r.clone(), mode.clone(), start.clone(), down.clone());
            proc("owner", async move {
                start.wait().await;
                r.set(Some(Process::monitor_alias(t, mode.get() & 2 == 2)));
                loop {
                    let e = ev(Process::receiver().for_message::<M>().receive().await);
                    if matches!(e, Ev::Down(..)) {
                        down.open();
                    }
                    log.push(e);
                }
            });
        }
        {
            let (gate, down, r) = (gate.clone(), down.clone(), r.clone());
            proc("late", async move {
                gate.wait().await;
                down.wait().await;
                Process::send(r.get().unwrap(), M::N(9));
            });
        }
        mc::explore();
        let m = mc::choose(4);
        mode.set(m);
        start.open();
        mc::settle();
        gate.open();
        mc::settle();
        let mut want = Vec::new();
        if m & 1 == 1 {
            want.push(Ev::Msg(M::N(1)));
        }
        want.push(Ev::Down(DestR::Pid(t), r.get().unwrap(), ExitR::Normal));
        check!(log.get() == want, "monitor-alias", "mode {}: {} events, last {:?}", m, log.get().len(), log.get().last().map(|e| matches!(e, Ev::Down(..))));
        no_stray_panics(&[]);
        mc::outcome(m);
    })
}

/// The owner ends while others use its aliases: no panic, no effect on anybody.
fn owner_ends() -> Scenario {
    sc("owner-ends", (2, 4), 1).run(|| {
        let gate = Gate::new();
        let al: Shared<Vec<Reference>> = Shared::new(Vec::new());
        {
            let (gate, al) = (gate.clone(), al.clone());
            proc("owner", async move {
                al.push(Process::alias(true));
                al.push(Process::alias(false));
                gate.wait().await;
            });
        }
        let done = Shared::new(0);
        {
            let (gate, al, done) = (gate.clone(), al.clone(), done.clone());
            proc("sender", async move {
                gate.wait().await;
                for a in al.get() {
                    Process::send(a, M::N(1));
                    Process::send(vec![Dest::from(a), Dest::from(a)], M::N(2));
                }
                done.set(1);
            });
        }
        mc::settle();
        mc::explore();
        gate.open();
        mc::settle();
        check!(done.get() == 1, "sender-hit", "the sender did not finish");
        no_stray_panics(&[]);
        mc::outcome(done.get());
    })
}

/// Every history of creating, using and removing aliases, against a model.
fn history() -> Scenario {
    let depth = if thorough() { 6 } else { 4 };
    seq("histories", 100).run(move || {
        let o = Agent::spawn("owner");
        let t = Agent::spawn("target");
        mc::settle();
        mc::explore();
        struct A {
            r: Reference,
            active: bool,
            reply: bool,
            monitor: bool,
            mon_active: bool,
        }
        let mut al: Vec<A> = Vec::new();
        let mut alive = true;
        let mut queue: Vec<Ev> = Vec::new();
        let mut trail = Vec::new();
        let tp = t.pid;
        for step in 0..depth {
            let op = mc::choose(10);
            trail.push(op);
            match op {
                0 | 1 => {
                    let reply = op == 1;
                    let r = o.call(move || Process::alias(reply)).unwrap();
                    al.push(A { r, active: true, reply, monitor: false, mon_active: false });
                }
                2 | 3 => {
                    let reply = op == 3;
                    let r = o.call(move || Process::monitor_alias(tp, reply)).unwrap();
                    if !alive {
                        queue.push(Ev::Down(DestR::Pid(tp), r, ExitR::from("noproc")));
                    }
                    al.push(A { r, active: alive, reply, monitor: true, mon_active: alive });
                }
                4 | 5 => {
                    let i = if op == 4 { 0 } else { al.len().saturating_sub(1) };
                    if let Some(a) = al.get_mut(i) {
                        let r = a.r;
                        let got = o.call(move || Process::unalias(r)).unwrap();
                        check!(got == a.active, "history-unalias", "after {:?}: unalias returned {}", trail, got);
                        a.active = false;
                    }
                }
                6 | 7 => {
                    let i = if op == 6 { 0 } else { al.len().saturating_sub(1) };
                    if let Some(a) = al.get_mut(i) {
                        let r = a.r;
                        let m = M::N(step as u32);
                        let m2 = m.clone();
                        o.call(move || Process::send(r, m2));
                        if a.active {
                            queue.push(Ev::Msg(m));
                            if a.reply {
                                a.active = false;
                            }
                        }
                    }
                }
                8 => {
                    if alive {
                        alive = false;
                        t.finish();
                        for a in al.iter_mut().filter(|a| a.monitor) {
                            a.active = false;
                            if a.mon_active {
                                a.mon_active = false;
                                queue.push(Ev::Down(DestR::Pid(tp), a.r, ExitR::Normal));
                            }
                        }
                    }
                }
                _ => {
                    if let Some(a) = al.iter_mut().find(|a| a.monitor) {
                        let r = a.r;
                        o.call(move || Process::demonitor(r));
                        if a.mon_active {
                            a.mon_active = false;
                            a.active = false;
                        }
                    }
                }
            }
            mc::settle();
            let mut got = o.exec(|| events()).unwrap();
            got.sort();
            queue.sort();
            check!(got == queue, "history", "after {:?}: received {:?}, expected {:?}", trail, got, queue);
            queue.clear();
        }
        no_stray_panics(&[]);
        mc::outcome(trail);
    })
}

/// An alias made with a monitor of a process of another node, whatever becomes of that one: it delivers until the report or the removal, and not after it.
fn far() -> Scenario {
    sc("far-monitor", (0, 1), 20).run(|| {
        mc::settle();
        mc::explore();
        mc::setup_begin();
        let (by_name, reply, f, conn) = (mc::choose(2) == 1, mc::choose(2) == 1, mc::choose(9), mc::choose(2) == 1);
        up(0);
        up(1);
        let (a, b, c) = (Rem::spawn(0, "a"), Rem::spawn(1, "b"), Rem::spawn(1, "c"));
        let p = b.pid;
        b.call(move || Process::register(p, "t").unwrap());
        mc::settle();
        if conn {
            connect(&a, 1);
        }
        let b0 = b.pid_on(0);
        if f == 1 {
            on(1, || b.a.finish());
            mc::settle();
        }
        let r = a.call(move || if by_name { Process::monitor_alias(("t", node_of(1)), reply) } else { Process::monitor_alias(b0, reply) }).unwrap();
        if f != 8 {
            // Otherwise while it is being installed.
            mc::settle();
        }
        mc::setup_end();
        let want = match f {
            0 => None,
            1 => Some("noproc".into()),
            2 => {
                on(1, || b.a.finish());
                Some(ExitR::Normal)
            }
            3 => {
                b.call(move || Process::exit(p, ExitReason::Kill));
                Some(ExitR::Kill)
            }
            4 => {
                a.call(|| Node::disconnect(node_of(1)));
                Some("noconnection".into())
            }
            5 => {
                c.call(|| Node::disconnect(node_of(0)));
                Some("noconnection".into())
            }
            6 => {
                a.call(|| Node::forget(node_of(1)));
                Some("noconnection".into())
            }
            7 => {
                a.call(move || Process::demonitor(r));
                None
            }
            _ => {
                a.call(|| Node::disconnect(node_of(1)));
                Some("noconnection".into())
            }
        };
        mc::settle();
        let down = a.events();
        let ok = match (&want, &down[..]) {
            (None, []) => true,
            (Some(w), [Ev::Down(_, x, got)]) => *x == r && w == got,
            _ => false,
        };
        check!(ok, "report", "{}: {:?} instead of {:?}", f, down, want);
        // From home, and from the other node.
        let active = f == 0;
        a.call(move || Process::send(r, M::N(1)));
        mc::settle();
        let got = a.events();
        let w = if active { vec![Ev::Msg(M::N(1))] } else { vec![] };
        check!(got == w, "alias-after-report", "{}: {:?}", f, got);
        a.call(|| Node::connect(node_of(1)));
        mc::settle();
        let far = move_to(0, 1, &r);
        c.call(move || Process::send(far, M::N(2)));
        mc::settle();
        let got = a.events();
        let w = if active && !reply { vec![Ev::Msg(M::N(2))] } else { vec![] };
        check!(got == w, "alias-after-report", "{}: {:?}", f, got);
        quiet_conn();
        mc::outcome((by_name, reply, f, conn));
    })
}
