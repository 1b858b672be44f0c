//! C04: mailboxes neither lose, duplicate nor reorder messages.

use crate::util::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![two_senders(), receive_timeout(), dead_receiver(), multi(false), multi(true), history(), lists(), flood(), typed()]
}

/// Two senders, by pid and by name or alias; the receiver takes messages selectively.
fn two_senders() -> Scenario {
    sc("two-senders", (2, 3), 8).run(|| {
        let gate = Gate::new();
        let mode = Shared::new(0usize);
        let via = Shared::new(0usize);
        let log = Shared::new(Vec::new());
        let alias: Shared<Option<Reference>> = Shared::new(None);
        let r = {
            let (gate, mode, log, alias) = (gate.clone(), mode.clone(), log.clone(), alias.clone());
            proc("receiver", async move {
                alias.set(Some(Process::alias(false)));
                gate.wait().await;
                let want = match mode.get() {
                    0 => None,
                    1 => Some(22),
                    2 => Some(12),
                    _ => Some(21),
                };
                if let Some(w) = want {
                    let m = Process::receiver()
                        .for_message::<M>()
                        .select(|m| matches!(m, Message::User(M::N(n)) if *n == w))
                        .await;
                    log.push(ev(m));
                }
                collect(log).await
            })
        };
        mc::settle();
        Process::register(r, "r").unwrap();
        let al = alias.get().unwrap();
        {
            let gate = gate.clone();
            proc("s1", async move {
                gate.wait().await;
                Process::send(r, M::N(11));
                Process::send(r, M::N(12));
            });
        }
        {
            let (gate, via) = (gate.clone(), via.clone());
            proc("s2", async move {
                gate.wait().await;
                for n in [21, 22] {
                    match via.get() {
                        0 => Process::send("r", M::N(n)),
                        1 => Process::send(al, M::N(n)),
                        _ => Process::send(vec![Dest::from("nobody"), Dest::from(r)], M::N(n)),
                    }
                }
            });
        }
        mc::settle();
        mc::explore();
        let m = mc::choose(4);
        mode.set(m);
        let v = mc::choose(3);
        via.set(v);
        gate.open();
        mc::settle();
        let mut got: Vec<u32> = log
            .get()
            .into_iter()
            .map(|e| match e {
                Ev::Msg(M::N(n)) => n,
                _ => mc::violation("mailbox-event", "unexpected message"),
            })
            .collect();
        let all = got.clone();
        check!(got.len() == 4, "mailbox-count", "4 messages were sent, received {:?}", got);
        if m > 0 {
            let want = [0, 22, 12, 21][m];
            check!(got[0] == want, "select", "selected {} first, got {:?}", want, got);
            got.remove(0);
        }
        for s in [1, 2] {
            let of: Vec<u32> = got.iter().copied().filter(|n| n / 10 == s).collect();
            let mut want: Vec<u32> = vec![s * 10 + 1, s * 10 + 2];
            if m > 0 {
                want.retain(|n| *n != all[0]);
            }
            check!(of == want, "mailbox-order", "from sender {}: {:?} of {:?}", s, of, all);
        }
        no_stray_panics(&[]);
        mc::outcome((m, v, all));
    })
}

/// A receive that is given up at its deadline loses nothing.
fn receive_timeout() -> Scenario {
    sc("receive-timeout", (2, 4), 3).timers(100).run(|| {
        let gate = Gate::new();
        let log = Shared::new(Vec::new());
        let outs = Shared::new(Vec::new());
        let sel = Shared::new(false);
        let r = {
            let (gate, log, outs, sel) = (gate.clone(), log.clone(), outs.clone(), sel.clone());
            proc("receiver", async move {
                gate.wait().await;
                for _ in 0..2 {
                    let rcv = Process::receiver().for_message::<M>();
                    let got = if sel.get() {
                        Process::timeout(ms(10), rcv.select(|m| matches!(m, Message::User(M::N(2))))).await
                    } else {
                        Process::timeout(ms(10), rcv.receive()).await
                    };
                    outs.push(got.is_ok());
                    if let Ok(m) = got {
                        log.push(ev(m));
                    }
                }
                collect(log).await
            })
        };
        {
            let gate = gate.clone();
            proc("sender", async move {
                gate.wait().await;
                Process::sleep(ms(10)).await;
                Process::send(r, M::N(1));
                Process::sleep(ms(10)).await;
                Process::send(r, M::N(2));
            });
        }
        mc::settle();
        mc::explore();
        sel.set(mc::choose(2) == 1);
        gate.open();
        mc::settle_for(10 * SEC);
        let mut got: Vec<Ev> = log.get();
        let order = got.clone();
        if sel.get() {
            got.sort();
        }
        check!(got == vec![Ev::Msg(M::N(1)), Ev::Msg(M::N(2))], "mailbox-timeout", "received {:?} (waits succeeded: {:?})", order, outs.get());
        no_stray_panics(&[]);
        mc::outcome((sel.get(), outs.get(), order));
    })
}

/// Sending to a process that ends: no panic, nothing else is affected.
fn dead_receiver() -> Scenario {
    sc("receiver-ends", (2, 4), 1).run(|| {
        let gate = Gate::new();
        let log = Shared::new(Vec::new());
        let dead = {
            let gate = gate.clone();
            proc("dying", async move {
                let _ = Process::alias(false);
                gate.wait().await;
                panic!("boom");
            })
        };
        Process::register(dead, "dying").unwrap();
        let r = {
            let log = log.clone();
            proc("receiver", async move { collect(log).await })
        };
        let sent = Shared::new(0u32);
        {
            let (gate, sent) = (gate.clone(), sent.clone());
            proc("sender", async move {
                gate.wait().await;
                Process::send(dead, M::N(1));
                Process::send("dying", M::N(1));
                Process::send(vec![Dest::from(dead), Dest::from(r), Dest::from("dying")], M::N(2));
                Process::send(r, M::N(3));
                sent.set(4);
            });
        }
        mc::settle();
        mc::explore();
        gate.open();
        mc::settle();
        check!(sent.get() == 4, "sender-hit", "the sender did not finish");
        check!(log.get() == vec![Ev::Msg(M::N(2)), Ev::Msg(M::N(3))], "mailbox-count", "{:?}", log.get());
        no_stray_panics(&[]);
        mc::outcome(sent.get());
    })
}

/// One send to several destinations: every one gets exactly its copies, in order with other sends.
fn multi(with_pid: bool) -> Scenario {
    let (name, key) = if with_pid { ("multi-destination-pid", "multi-dest-pid") } else { ("multi-destination", "multi-dest") };
    seq(name, 50).run(move || {
        let a = Agent::spawn("a");
        let b = Agent::spawn("b");
        let gone = Agent::spawn("gone");
        mc::settle();
        gone.finish();
        mc::settle();
        Process::register(b.pid, "b").unwrap();
        let alias = a.call(|| Process::alias(false)).unwrap();
        let once = b.call(|| Process::alias(true)).unwrap();
        let (pa, pb, pg) = (a.pid, b.pid, gone.pid);
        mc::explore();
        let n = 1 + mc::choose(4);
        let mut dests = Vec::new();
        let mut want = [0usize; 2];
        let mut once_used = false;
        let mut trail = Vec::new();
        for _ in 0..n {
            let d = mc::choose(7);
            trail.push(d);
            dests.push(match d {
                0 => Dest::from(pa),
                1 => Dest::from(pb),
                2 => Dest::from("b"),
                3 => Dest::from(alias),
                4 => Dest::from(once),
                5 => Dest::from(pg),
                _ => Dest::from("nobody"),
            });
            match d {
                0 | 3 => want[0] += 1,
                1 | 2 => want[1] += 1,
                4 if !once_used => {
                    once_used = true;
                    want[1] += 1;
                }
                _ => (),
            }
        }
        let msg = if with_pid { M::P(pa, 7) } else { M::N(7) };
        let m2 = msg.clone();
        a.call(move || {
            Process::send(pb, M::N(1));
            Process::send(dests, m2);
            Process::send(pb, M::N(2));
        });
        mc::settle();
        let ga = a.exec(|| events()).unwrap();
        let gb = b.exec(|| events()).unwrap();
        let wa: Vec<Ev> = (0..want[0]).map(|_| Ev::Msg(msg.clone())).collect();
        let mut wb = vec![Ev::Msg(M::N(1))];
        wb.extend((0..want[1]).map(|_| Ev::Msg(msg.clone())));
        wb.push(Ev::Msg(M::N(2)));
        check!(ga == wa, key, "destinations {:?}: first process got {:?}", trail, ga);
        check!(gb == wb, key, "destinations {:?}: second process got {:?}", trail, gb);
        no_stray_panics(&[]);
        mc::outcome(trail);
    })
}

#[derive(Clone, Debug, PartialEq)]
enum It {
    N(u32),
    S(u32),
    Exit,
}

/// Every history of sends and (selective, typed, removing) receives, against a list.
fn history() -> Scenario {
    let depth = if thorough() { 6 } else { 5 };
    seq("histories", 100).secs(12.0, 200.0).run(move || {
        let r = Agent::spawn("receiver");
        let s = Agent::spawn("sender");
        mc::settle();
        r.call(trap);
        let (pr, ps) = (r.pid, s.pid);
        mc::explore();
        let mut model: Vec<It> = Vec::new();
        let mut k = 0;
        let mut trail = Vec::new();
        for _ in 0..depth {
            let op = mc::choose(9);
            trail.push(op);
            k += 1;
            match op {
                0 => {
                    // Alternately to one destination and (serialized) to several.
                    s.call(move || Process::send(pr, M::N(k)));
                    model.push(It::N(k));
                }
                1 => {
                    s.call(move || Process::send(vec![Dest::from(ps), Dest::from(pr)], M::N(k)));
                    model.push(It::N(k));
                }
                2 => {
                    s.call(move || Process::send(pr, Other(k.to_string())));
                    model.push(It::S(k));
                }
                3 => {
                    s.call(move || Process::exit(pr, "sig"));
                    model.push(It::Exit);
                }
                4 | 5 => {
                    // Any message of this type / only with an even number.
                    let even = op == 5;
                    let got = r
                        .exec(move || poll_once(Process::receiver().for_message::<M>().select(move |m| match m {
                            Message::User(M::N(n)) => !even || n % 2 == 0,
                            _ => !even,
                        })))
                        .unwrap()
                        .map(|m| match ev(m) {
                            Ev::Msg(M::N(n)) => It::N(n),
                            Ev::Exit(p, _) if p == ps => It::Exit,
                            e => mc::violation("history-event", &format!("{:?}", e)),
                        });
                    let pos = model.iter().position(|i| match i {
                        It::N(n) => !even || n % 2 == 0,
                        It::S(_) => false,
                        It::Exit => !even,
                    });
                    let want = pos.map(|p| model.remove(p));
                    check!(got == want, "history", "after {:?}: received {:?}, expected {:?}", trail, got, want);
                }
                6 => {
                    let got = r
                        .exec(|| poll_once(Process::receiver().for_message::<Other>().receive()))
                        .unwrap()
                        .map(|m| match m {
                            Message::User(o) => It::S(o.0.parse().unwrap()),
                            Message::System(_) => It::Exit,
                        });
                    let pos = model.iter().position(|i| !matches!(i, It::N(_)));
                    let want = pos.map(|p| model.remove(p));
                    check!(got == want, "history", "after {:?}: received {:?}, expected {:?}", trail, got, want);
                }
                7 => {
                    r.call(|| {
                        Process::receiver()
                            .for_message::<M>()
                            .remove(|m| matches!(m, Message::User(M::N(n)) if n % 2 == 1))
                    });
                    model.retain(|i| !matches!(i, It::N(n) if n % 2 == 1));
                }
                _ => {
                    r.exec(|| async {
                        let _ = poll_once(Process::receiver().for_message::<M>().select(|_| false)).await;
                    });
                }
            }
            mc::settle();
        }
        // What is left, in order. Typed receives in turn, so that no message is converted wrongly.
        let mut left = Vec::new();
        for i in &model {
            let it = match i {
                It::S(_) => r.exec(|| poll_once(Process::receiver().for_message::<Other>().receive())).unwrap().map(|m| match m {
                    Message::User(o) => It::S(o.0.parse().unwrap()),
                    _ => It::Exit,
                }),
                _ => r.exec(|| poll_once(Process::receiver().for_message::<M>().receive())).unwrap().map(|m| match m {
                    Message::User(M::N(n)) => It::N(n),
                    _ => It::Exit,
                }),
            };
            left.push(it);
        }
        check!(left == model.iter().cloned().map(Some).collect::<Vec<_>>(), "history", "after {:?}: left {:?}, expected {:?}", trail, left, model);
        let more = r.exec(|| events()).unwrap();
        check!(more.is_empty(), "history", "after {:?}: {:?} more messages", trail, more);
        no_stray_panics(&[]);
        mc::outcome(trail);
    })
}

/// Lists of destinations of every length and in every form, the empty ones among them, with repetitions.
fn lists() -> Scenario {
    seq("lists", 200).run(|| {
        mc::settle();
        mc::explore();
        let s = Agent::spawn("sender");
        let rs: Vec<Agent> = (0..2).map(|_| Agent::spawn("receiver")).collect();
        let pids = [rs[0].pid, rs[1].pid];
        let al = rs[1].call(|| Process::alias(false)).unwrap();
        let named = rs[0].pid;
        s.call(move || Process::register(named, "r0").unwrap());
        let len = mc::choose(5);
        let form = mc::choose(7);
        // By identifier only in the forms for identifiers.
        let list: Vec<usize> = (0..len).map(|_| mc::choose(if form < 3 { 2 } else { 4 })).collect();
        let l2 = list.clone();
        let dest = move |i: usize| [Dest::from(pids[0]), Dest::from(pids[1]), Dest::from("r0"), Dest::from(al)][i].clone();
        let sent = s.call(move || {
            let ps: Vec<Pid> = l2.iter().filter(|i| **i < 2).map(|i| pids[*i]).collect();
            let ds: Vec<Dest> = l2.iter().map(|i| dest(*i)).collect();
            match form {
                0 => Process::send(&ps[..], M::N(1)),
                1 => Process::send(ps, M::N(1)),
                2 => Process::send(&ps, M::N(1)),
                3 => Process::send(&ds[..], M::N(1)),
                4 => Process::send(ds, M::N(1)),
                5 => Process::send(ds.into_iter().collect::<Dests>(), M::N(1)),
                _ => Process::send(Dests::from(ds), M::N(1)),
            }
        });
        check!(sent.is_some(), "lists-sender", "form {}, {:?}: the sender ended", form, list);
        mc::settle();
        let counts: Vec<usize> = (0..2).map(|r| rs[r].exec(events).unwrap().into_iter().map(|e| check!(e == Ev::Msg(M::N(1)), "lists", "{:?}", e)).count()).collect();
        let want: Vec<usize> = (0..2).map(|r| list.iter().filter(|i| [0, 1, 0, 1][**i] == r).count()).collect();
        check!(counts == want, "lists", "form {}, {:?}: {:?} instead of {:?}", form, list, counts, want);
        no_stray_panics(&[]);
        mc::outcome((form, list));
    })
}

/// As many messages as nobody reads for a while.
fn flood() -> Scenario {
    seq("flood", 2).steps(10_000_000).run(|| {
        mc::settle();
        mc::explore();
        let n = 70_000;
        let how = mc::choose(2);
        let (s, r) = (Agent::spawn("sender"), Agent::spawn("receiver"));
        let (sp, rp) = (s.pid, r.pid);
        s.post(move || async move {
            for i in 0..n {
                if how == 0 {
                    Process::send(rp, M::N(i));
                } else {
                    Process::send(vec![rp, rp], M::N(i));
                }
            }
        });
        mc::settle();
        check!(Process::alive(sp), "flood-sender", "");
        let c = if how == 0 { 1 } else { 2 };
        let len = Process::info(rp).map(|i| i.message_queue_len);
        check!(len == Some((n * c) as usize), "flood-queue", "{:?} of {}", len, n * c);
        let got = r.exec(drain::<M>).unwrap();
        let want = (0..n).flat_map(|i| (0..c).map(move |_| i));
        let same = got.len() == (n * c) as usize && got.iter().zip(want).all(|(g, w)| matches!(g, Message::User(M::N(x)) if *x == w));
        check!(same, "flood", "{} of {} messages, or others", got.len(), n * c);
        mc::outcome(how);
    })
}

#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
struct Short {
    id: u32,
}

/// What a `Short` can be read from as well.
#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
struct Long {
    id: u32,
    work: String,
}

/// Messages of several types in one mailbox, some of them serialized, as those of another node or of a list of
/// destinations are: a receive that does not return a message leaves it as it was, for a receive of its own type.
fn typed() -> Scenario {
    seq("typed", 200).run(|| {
        mc::settle();
        mc::explore();
        let s = Agent::spawn("sender");
        let decoy = Agent::spawn("decoy");
        let r = Agent::spawn("receiver");
        let (dp, rp) = (decoy.pid, r.pid);
        let types: Vec<usize> = (0..2).map(|_| mc::choose(4)).collect();
        let serialized: Vec<bool> = (0..2).map(|_| mc::choose(2) == 1).collect();
        let misses: Vec<usize> = (0..2).map(|_| mc::choose(9)).collect();
        let first = mc::choose(2);
        for i in 0..2 {
            let (t, ser) = (types[i], serialized[i]);
            s.call(move || {
                let to = if ser { Dests::from(vec![dp, rp]) } else { Dests::from(rp) };
                match t {
                    0 => Process::send(to, Short { id: i as u32 }),
                    1 => Process::send(to, Long { id: i as u32, work: "w".repeat(i + 1) }),
                    2 => Process::send(to, i as u32),
                    _ => Process::send(to, i as u64),
                }
            });
        }
        mc::settle();
        async fn look<T: Receivable>(remove: bool) -> bool {
            if remove {
                Process::receiver().for_message::<T>().remove(|_| false);
                false
            } else {
                let none = Process::receiver().for_message::<T>().select(|_| false);
                Process::timeout(Duration::from_millis(1), none).await.is_ok()
            }
        }
        for miss in misses.clone() {
            let got = r.exec(move || async move {
                let remove = miss % 2 == 1;
                match miss / 2 {
                    0 => look::<Short>(remove).await,
                    1 => look::<Long>(remove).await,
                    2 => look::<u32>(remove).await,
                    3 => look::<u64>(remove).await,
                    _ => false,
                }
            });
            check!(got == Some(false), "typed-miss", "{:?}: {:?}", misses, got);
        }
        for i in [first, 1 - first] {
            let t = types[i];
            let got = r.exec(move || async move {
                let limit = Duration::from_millis(1);
                let of = |id: u64| id == i as u64;
                let receiver = Process::receiver();
                match t {
                    0 => {
                        let take = receiver.for_message::<Short>().select(|m| matches!(m, Message::User(m) if of(m.id as u64)));
                        matches!(Process::timeout(limit, take).await, Ok(Message::User(m)) if of(m.id as u64))
                    }
                    1 => {
                        let take = receiver.for_message::<Long>().select(|m| matches!(m, Message::User(m) if of(m.id as u64)));
                        matches!(Process::timeout(limit, take).await, Ok(Message::User(m)) if of(m.id as u64) && m.work.len() == i + 1)
                    }
                    2 => {
                        let take = receiver.for_message::<u32>().select(|m| matches!(m, Message::User(m) if of(**m as u64)));
                        matches!(Process::timeout(limit, take).await, Ok(Message::User(m)) if of(m as u64))
                    }
                    _ => {
                        let take = receiver.for_message::<u64>().select(|m| matches!(m, Message::User(m) if of(**m)));
                        matches!(Process::timeout(limit, take).await, Ok(Message::User(m)) if of(m))
                    }
                }
            });
            check!(
                got == Some(true),
                "typed",
                "messages of types {:?}, serialized {:?}: after receives {:?} that returned nothing, message {} cannot be received",
                types,
                serialized,
                misses,
                i
            );
        }
        let rest = r.exec(drain::<M>).map(|m| m.len());
        check!(rest == Some(0), "typed-rest", "{:?}", rest);
        no_stray_panics(&[]);
        mc::outcome((types, serialized, misses, first));
    })
}
