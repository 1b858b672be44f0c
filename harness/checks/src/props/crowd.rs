//! The same guarantees with many of everything: sizes past any table, batch or threshold that a change could introduce.

use crate::dist::*;
use crate::srv::*;
use crate::sup::*;
use std::sync::Arc;

pub fn scenarios(p: &str) -> Vec<Scenario> {
    match p {
        "C01" => vec![c01()],
        "C02" => vec![c02()],
        "C03" => vec![c03()],
        "C04" => vec![c04()],
        "C05" => vec![c05()],
        "C06" => vec![c06()],
        "C07" => vec![c07()],
        "C08" => vec![c08()],
        "C10" => vec![c10()],
        "C11" => vec![c11()],
        "C12" => vec![c12()],
        "C13" => vec![c13()],
        "C14" => vec![c14()],
        "C15" => vec![c15()],
        "C16" => vec![c16()],
        "C17" => vec![c17()],
        "C18" => vec![c18()],
        "C19" => vec![c19()],
        "C20" => vec![c20()],
        "C22" => vec![c22()],
        "C23" => vec![c23()],
        "C24" => vec![c24()],
        "C27" => vec![c27()],
        "C28" => vec![c28()],
        "C30" => vec![c30()],
        _ => vec![],
    }
}

fn crowd(min: usize, f: impl Fn() + 'static) -> Scenario {
    seq("crowd", min).steps(10_000_000).run(move || {
        mc::settle();
        mc::explore();
        f();
    })
}

fn many() -> usize {
    [2, 9, 40, if thorough() { 4_000 } else { 1_100 }][mc::choose(4)]
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

fn ids(prefix: &str, n: usize) -> Vec<&'static str> {
    (0..n).map(|i| leak(format!("{}{:04}", prefix, i))).collect()
}

/// The down messages among the events: reference and reason.
fn downs(evs: &[Ev]) -> Vec<(Reference, ExitR)> {
    evs.iter()
        .map(|e| match e {
            Ev::Down(_, r, e) => (*r, e.clone()),
            e => mc::violation("alien-message", &format!("{:?}", e)),
        })
        .collect()
}

/// Many monitors of one process, many watchers of one, one watcher of many; every third is removed again.
fn c01() -> Scenario {
    crowd(12, || {
        let n = many();
        let how = mc::choose(3);
        let w = Agent::spawn("watcher");
        let fate = |i: usize| [ExitR::from("boom"), ExitR::Normal, ExitR::Kill][i % 3].clone();
        match how {
            0 => {
                let t = Agent::spawn("target");
                Process::register(t.pid, "t").unwrap();
                let p = t.pid;
                let refs = w.call(move || (0..n).map(|i| if i % 2 == 0 { Process::monitor(p) } else { Process::monitor("t") }).collect::<Vec<_>>()).unwrap();
                let r2 = refs.clone();
                w.call(move || r2.iter().skip(1).step_by(3).for_each(|r| Process::demonitor(*r)));
                t.panic();
                mc::settle();
                let mut got = downs(&w.exec(events).unwrap());
                got.sort();
                let mut want: Vec<_> = refs.iter().enumerate().filter(|(i, _)| i % 3 != 1).map(|(_, r)| (*r, ExitR::from("boom"))).collect();
                want.sort();
                check!(got == want, "report", "{} monitors: {:?} instead of {:?}", n, got, want);
            }
            1 => {
                let t = Agent::spawn("target");
                let p = t.pid;
                let ws: Vec<Agent> = (0..n).map(|_| Agent::spawn("watcher")).collect();
                let refs: Vec<Reference> = ws.iter().map(|w| w.call(move || Process::monitor(p)).unwrap()).collect();
                for (i, w) in ws.iter().enumerate().filter(|(i, _)| i % 3 == 1) {
                    let r = refs[i];
                    w.call(move || Process::demonitor(r));
                }
                // Some watchers end before.
                let gone = n / 2;
                ws[gone].finish();
                mc::settle();
                t.panic();
                mc::settle();
                for (i, w) in ws.iter().enumerate().filter(|(i, _)| *i != gone) {
                    let got = downs(&w.exec(events).unwrap());
                    let want = if i % 3 == 1 { vec![] } else { vec![(refs[i], ExitR::from("boom"))] };
                    check!(got == want, "report", "watcher {} of {}: {:?} instead of {:?}", i, n, got, want);
                }
            }
            _ => {
                let ts: Vec<Agent> = (0..n).map(|_| Agent::spawn("target")).collect();
                let pids: Vec<Pid> = ts.iter().map(|t| t.pid).collect();
                let refs = w.call(move || pids.iter().map(|p| Process::monitor(*p)).collect::<Vec<_>>()).unwrap();
                for (i, t) in ts.iter().enumerate() {
                    match i % 3 {
                        0 => t.panic(),
                        1 => t.finish(),
                        _ => signal(t.pid, ExitReason::Kill),
                    }
                }
                mc::settle();
                let mut got = downs(&w.exec(events).unwrap());
                got.sort();
                let mut want: Vec<_> = refs.iter().enumerate().map(|(i, r)| (*r, fate(i))).collect();
                want.sort();
                check!(got == want, "report", "{} targets: {:?} instead of {:?}", n, got, want);
            }
        }
        no_stray_panics(&[]);
        mc::outcome((n, how));
    })
}

/// A process with many links: its end, or theirs.
fn c02() -> Scenario {
    crowd(24, || {
        let n = many();
        let hub = Agent::spawn("hub");
        let ps: Vec<Agent> = (0..n).map(|_| Agent::spawn("partner")).collect();
        let all: Vec<Pid> = ps.iter().map(|p| p.pid).collect();
        for p in ps.iter().step_by(2) {
            p.call(|| trap());
        }
        let a2 = all.clone();
        // The links are made by the hub, by the partners, or by every third partner.
        let h = hub.pid;
        let by = mc::choose(3);
        hub.call(move || a2.iter().enumerate().filter(|(i, _)| by == 0 || (by == 2 && i % 3 != 0)).for_each(|(_, p)| Process::link(*p)));
        for (i, p) in ps.iter().enumerate() {
            if by == 1 || (by == 2 && i % 3 == 0) {
                p.call(move || Process::link(h));
            }
        }
        // Every fifth is unlinked again, from either side.
        for (i, p) in ps.iter().enumerate().filter(|(i, _)| i % 5 == 4) {
            let pid = p.pid;
            if i % 2 == 0 {
                hub.call(move || Process::unlink(pid));
            } else {
                p.call(move || Process::unlink(h));
            }
        }
        let ends = mc::choose(2);
        if ends == 0 {
            hub.panic();
            mc::settle();
            for (i, p) in ps.iter().enumerate() {
                let want = match (i % 5 == 4, i % 2 == 0) {
                    (true, _) => Some(vec![]),
                    (_, true) => Some(vec![Ev::Exit(h, ExitR::from("boom"))]),
                    _ => None,
                };
                let got = p.exec(events);
                check!(got == want, "link", "partner {} of {}: {:?} instead of {:?}", i, n, got, want);
            }
        } else {
            hub.call(|| trap());
            for p in &ps {
                p.panic();
            }
            mc::settle();
            let mut got = hub.exec(events).unwrap();
            got.sort();
            let mut want: Vec<Ev> = all.iter().enumerate().filter(|(i, _)| i % 5 != 4).map(|(_, p)| Ev::Exit(*p, ExitR::from("boom"))).collect();
            want.sort();
            check!(got == want, "link", "{} partners: {:?} instead of {:?}", n, got, want);
        }
        no_stray_panics(&[]);
        mc::outcome((n, by, ends));
    })
}

/// Many signals to a process that traps exits, between its messages; normal ones to one that does not.
fn c03() -> Scenario {
    crowd(8, || {
        let n = many();
        let traps = mc::choose(2) == 1;
        let (s, t) = (Agent::spawn("signaller"), Agent::spawn("target"));
        if traps {
            t.call(|| trap());
        }
        let (sp, tp) = (s.pid, t.pid);
        let reason = move |i: usize| if i % 2 == 0 || !traps { ExitReason::Normal } else { ExitReason::from(format!("r{}", i)) };
        s.call(move || {
            for i in 0..n {
                Process::send(tp, M::N(i as u32));
                Process::exit(tp, reason(i));
            }
        });
        mc::settle();
        let got = t.exec(events).unwrap_or_else(|| mc::violation("ended", "by a normal or trapped signal"));
        let want: Vec<Ev> = (0..n).flat_map(|i| [Some(Ev::Msg(M::N(i as u32))), traps.then(|| Ev::Exit(sp, reason(i).into()))]).flatten().collect();
        check!(got == want, "signals", "{} signals, trapping {}: {:?} instead of {:?}", n, traps, got, want);
        s.call(move || Process::exit(tp, ExitReason::Kill));
        mc::settle();
        check!(!Process::alive(tp), "kill", "");
        no_stray_panics(&[]);
        mc::outcome((n, traps));
    })
}

/// Many messages, received selectively from the far end, in the middle and by type; one send to many processes.
fn c04() -> Scenario {
    crowd(8, || {
        let n = many() * 4;
        let how = mc::choose(2);
        let s = Agent::spawn("sender");
        if how == 0 {
            let t = Agent::spawn("target");
            let tp = t.pid;
            s.call(move || {
                for i in 0..n {
                    if i % 7 == 3 {
                        Process::send(tp, Other("x".repeat(i)));
                    } else {
                        Process::send(tp, M::N(i as u32));
                    }
                }
            });
            mc::settle();
            let mut left: Vec<u32> = (0..n as u32).filter(|i| i % 7 != 3).collect();
            let others: Vec<usize> = (0..n).filter(|i| i % 7 == 3).collect();
            // The last, one in the middle, every fourth.
            let mut picks = vec![*left.last().unwrap(), left[left.len() / 2]];
            picks.extend(left.iter().copied().step_by(4));
            picks.dedup();
            for p in picks {
                let had = left.contains(&p);
                let got = t
                    .exec(move || async move { poll_once(Process::receiver().for_message::<M>().select(move |m| matches!(m, Message::User(M::N(i)) if *i == p))).await.map(ev) })
                    .unwrap();
                check!(got == had.then_some(Ev::Msg(M::N(p))), "selective", "{} of {}: {:?}", p, n, got);
                left.retain(|x| *x != p);
            }
            let got: Vec<usize> = t.exec(drain::<Other>).unwrap().into_iter().map(|m| if let Message::User(Other(s)) = m { s.len() } else { usize::MAX }).collect();
            check!(got == others, "typed", "{:?} instead of {:?}", got, others);
            let got = t.exec(events).unwrap();
            let want: Vec<Ev> = left.into_iter().map(|i| Ev::Msg(M::N(i))).collect();
            check!(got == want, "order", "{:?} instead of {:?}", got, want);
        } else {
            let ts: Vec<Agent> = (0..n).map(|_| Agent::spawn("target")).collect();
            // Each twice, the second time in reverse.
            let ds: Vec<Dest> = ts.iter().chain(ts.iter().rev()).map(|t| Dest::from(t.pid)).collect();
            s.call(move || {
                Process::send(ds.clone(), M::Go);
                Process::send(ds, M::Stop);
            });
            mc::settle();
            for (i, t) in ts.iter().enumerate() {
                let got = t.exec(events).unwrap();
                check!(got == [M::Go, M::Go, M::Stop, M::Stop].map(Ev::Msg), "destinations", "{} of {}: {:?}", i, n, got);
            }
        }
        no_stray_panics(&[]);
        mc::outcome((n, how));
    })
}

/// Many names, and names that look alike.
fn c05() -> Scenario {
    crowd(4, || {
        let n = many();
        let mut names: Vec<String> = ["", " ", "a", "A", "a ", " a", "ä", "a\u{308}", "a\0", "n", "Pid<0, 1>", "local"].iter().map(|s| s.to_string()).collect();
        names.extend([255, 256, 1000].map(|l| "x".repeat(l)));
        names.extend(ids("name", n).into_iter().map(|s| s.to_string()));
        let ps: Vec<Agent> = names.iter().map(|_| Agent::spawn("named")).collect();
        for (p, n) in ps.iter().zip(&names) {
            check!(Process::register(p.pid, n.clone()).is_ok(), "register", "{:?}", n);
        }
        let sorted = |mut v: Vec<String>| {
            v.sort();
            v
        };
        check!(sorted(Process::registered()) == sorted(names.clone()), "registered", "{:?}", Process::registered());
        let s = Agent::spawn("sender");
        for (i, (p, n)) in ps.iter().zip(&names).enumerate() {
            check!(Process::whereis(n) == Some(p.pid), "whereis", "{:?}", n);
            let n = n.clone();
            s.call(move || Process::send(n, M::N(i as u32)));
        }
        mc::settle();
        for (i, p) in ps.iter().enumerate() {
            check!(p.exec(events).unwrap() == [Ev::Msg(M::N(i as u32))], "name-send", "{:?}", names[i]);
        }
        // Some end, some are unregistered, some stay; then the next process takes the freed name.
        for (i, p) in ps.iter().enumerate() {
            match i % 3 {
                0 => p.finish(),
                1 => Process::unregister(&names[i]),
                _ => (),
            }
        }
        mc::settle();
        for (i, n) in names.iter().enumerate() {
            let want = (i % 3 == 2).then_some(ps[i].pid);
            check!(Process::whereis(n) == want, "whereis", "{:?}: {:?}", n, Process::whereis(n));
        }
        let heirs: Vec<Agent> = names.iter().map(|_| Agent::spawn("heir")).collect();
        for (i, n) in names.iter().enumerate() {
            let r = Process::register(heirs[i].pid, n.clone());
            check!(r.is_ok() == (i % 3 != 2), "register", "{:?} again: {:?}", n, r);
            check!(Process::whereis(n) == Some(if i % 3 == 2 { ps[i].pid } else { heirs[i].pid }), "whereis", "{:?}", n);
        }
        no_stray_panics(&[]);
        mc::outcome(n);
    })
}

/// Many aliases of one process, of both kinds, some deactivated.
fn c06() -> Scenario {
    crowd(4, || {
        let n = many();
        let (t, s) = (Agent::spawn("target"), Agent::spawn("sender"));
        let als = t.call(move || (0..n).map(|i| Process::alias(i % 2 == 0)).collect::<Vec<_>>()).unwrap();
        let a2 = als.clone();
        t.call(move || {
            for (i, a) in a2.iter().enumerate().filter(|(i, _)| i % 5 == 2) {
                check!(Process::unalias(*a), "unalias", "{}", i);
                check!(!Process::unalias(*a), "unalias", "{} twice", i);
            }
        });
        let a2 = als.clone();
        s.call(move || {
            for round in 0..2 {
                for (i, a) in a2.iter().enumerate() {
                    Process::send(*a, M::N((i * 2 + round) as u32));
                }
            }
        });
        mc::settle();
        let got = t.exec(events).unwrap();
        let want: Vec<Ev> = (0..2)
            .flat_map(|round| (0..n).filter(move |i| i % 5 != 2 && (i % 2 == 1 || round == 0)).map(move |i| Ev::Msg(M::N((i * 2 + round) as u32))))
            .collect();
        check!(got == want, "alias", "{} aliases: {:?} instead of {:?}", n, got, want);
        let a2 = als.clone();
        t.call(move || {
            for (i, a) in a2.iter().enumerate() {
                check!(Process::unalias(*a) == (i % 5 != 2 && i % 2 == 1), "unalias", "{} afterwards", i);
            }
        });
        t.finish();
        mc::settle();
        no_stray_panics(&[]);
        mc::outcome(n);
    })
}

/// Many processes at once and one after the other: all different, all listed, all forgotten.
fn c07() -> Scenario {
    crowd(4, || {
        let n = many() * 2;
        let base: BTreeSet<Pid> = Process::list().into_iter().collect();
        let ps: Vec<Agent> = (0..n).map(|_| Agent::spawn("one")).collect();
        let pids: BTreeSet<Pid> = ps.iter().map(|p| p.pid).collect();
        check!(pids.len() == n, "same-pid", "{:?}", pids);
        let list = Process::list();
        let now: BTreeSet<Pid> = list.iter().copied().collect();
        check!(now.len() == list.len() && now == base.union(&pids).copied().collect(), "list", "{:?}", now);
        for (i, p) in ps.iter().enumerate() {
            if i % 2 == 0 {
                p.finish()
            } else {
                signal(p.pid, ExitReason::Kill)
            }
        }
        mc::settle();
        let now: BTreeSet<Pid> = Process::list().into_iter().collect();
        check!(now == base, "list", "afterwards {:?}", now);
        check!(pids.iter().all(|p| !Process::alive(*p) && Process::info(*p).is_none()), "alive", "");
        // Identifiers are not used again.
        let again: BTreeSet<Pid> = (0..n).map(|_| proc("again", async {})).collect();
        check!(again.len() == n && again.is_disjoint(&pids), "same-pid", "{:?} {:?}", pids, again);
        mc::settle();
        no_stray_panics(&[]);
        mc::outcome(n);
    })
}

/// Many timers of different and equal delays, some cancelled; delays from nothing to a year.
fn c08() -> Scenario {
    crowd(4, || {
        let n = many();
        let (t, s) = (Agent::spawn("target"), Agent::spawn("sender"));
        let tp = t.pid;
        let delay = |i: usize| (i * 37 % 50) as u64 * 100;
        let t0 = mc::now();
        let timers = s.call(move || (0..n).map(|i| Process::send_after(tp, M::N(i as u32), ms(delay(i)))).collect::<Vec<_>>()).unwrap();
        let year = s.call(move || Process::send_after(tp, M::Go, ms(365 * 86_400_000))).unwrap();
        let gone = |i: usize| i % 4 == 1 && delay(i) > 0;
        for i in (0..n).filter(|i| gone(*i)) {
            Process::cancel_timer(timers[i]);
        }
        let mut at = 0;
        let mut seen = BTreeSet::new();
        for stop in [0, 99, 100, 101, 1000, 1099, 2500, 4899, 4901, 10_000] {
            mc::settle_for((t0 + stop * MS).saturating_sub(mc::now()));
            mc::settle();
            for e in t.exec(events).unwrap() {
                let Ev::Msg(M::N(i)) = e else { mc::violation("alien-message", &format!("{:?}", e)) };
                let i = i as usize;
                check!(!gone(i), "cancelled", "{} of {}", i, n);
                check!(delay(i) <= stop && delay(i) >= at, "time", "timer {} of {} ms fired between {} and {} ms", i, delay(i), at, stop);
                check!(seen.insert(i), "twice", "timer {}", i);
            }
            for i in 0..n {
                let left = Process::read_timer(timers[i]);
                // The clock has a millisecond's resolution.
                if gone(i) || delay(i) + 1 < stop {
                    check!(left.is_none(), "read", "timer {}: {:?} left after {} ms of {}", i, left, stop, delay(i));
                } else if delay(i) > stop + 1 {
                    check!(left.is_some_and(|l| l <= ms(delay(i)) && l + ms(stop + 2) >= ms(delay(i))), "read", "timer {}: {:?} left after {} ms of {}", i, left, stop, delay(i));
                }
            }
            at = stop;
        }
        check!(seen.len() == (0..n).filter(|i| !gone(*i)).count(), "lost", "{} of {}", seen.len(), n);
        check!(Process::read_timer(year).is_some_and(|l| l > ms(364 * 86_400_000)), "read", "a year");
        mc::settle_for(365 * 86_400 * SEC + SEC);
        check!(t.exec(events).unwrap() == [Ev::Msg(M::Go)], "lost", "a year");
        no_stray_panics(&[]);
        mc::outcome(n);
    })
}

/// Many calls open at once, answered in another order; some given up, some answered late.
fn c10() -> Scenario {
    crowd(8, || {
        let n = many();
        let newest_first = mc::choose(2) == 1;
        let s = Srv::new();
        let pid = start_server(&s, GenServerOptions::new());
        let out: Shared<BTreeMap<usize, CallR>> = Shared::new(BTreeMap::new());
        let clients: Vec<Agent> = (0..n).map(|_| Agent::spawn("client")).collect();
        for (i, c) in clients.iter().enumerate() {
            let out = out.clone();
            c.post(move || async move {
                let r = call(pid, Q::Defer(i as u32), if i % 4 == 3 { Some(100) } else { None }).await;
                out.with(|o| o.insert(i, r));
                // The next call is not confused by a late answer.
                let r = call(pid, Q::Echo(100_000 + i as u32), None).await;
                check!(r == CallR::Ok(Q::Ans(100_000 + i as u32)), "answer", "second call of {}: {:?}", i, r);
            });
        }
        mc::settle_for(200 * MS);
        if newest_first {
            s.deferred.with(|d| d.reverse());
        }
        while mc::quiet(|| s.reply_oldest()).is_some() {}
        mc::settle();
        let got = out.get();
        let want: BTreeMap<usize, CallR> = (0..n).map(|i| (i, if i % 4 == 3 { CallR::Timeout } else { CallR::Ok(Q::Ans(i as u32)) })).collect();
        check!(got == want, "answer", "{:?} instead of {:?}", got, want);
        for (i, c) in clients.iter().enumerate() {
            check!(c.exec(events) == Some(vec![]), "stray", "client {}", i);
        }
        // All open calls learn of the end.
        let out: Shared<Vec<CallR>> = Shared::new(vec![]);
        for c in &clients {
            let out = out.clone();
            c.post(move || async move {
                let r = call(pid, Q::Defer(0), None).await;
                out.push(r);
            });
        }
        mc::settle();
        signal(pid, ExitReason::from("away"));
        mc::settle();
        check!(out.get() == vec![CallR::Down(ExitR::from("away")); n], "down", "{:?}", out.get());
        no_stray_panics(&[]);
        mc::outcome((n, newest_first));
    })
}

/// Many messages of all kinds wait while a server initializes.
fn c11() -> Scenario {
    crowd(4, || {
        let n = many();
        let mut s = Srv::new();
        s.init_ms = 50;
        s.trap = true;
        let s2 = s.clone();
        proc("starter", async move {
            let _ = s2.start(GenServerOptions::new().name("srv")).await;
        });
        mc::settle();
        let sender = Agent::spawn("sender");
        sender.post(move || async move {
            for i in 0..n as u32 {
                match i % 3 {
                    0 => Srv::cast("srv", Q::Note(i)),
                    1 => Process::exit(Process::whereis("srv").unwrap(), ExitReason::from("some")),
                    _ => {
                        let r = poll_once(Srv::call("srv", Q::Note(i), None)).await;
                        check!(r.is_none(), "early", "{:?}", r.map(call_r));
                    }
                }
            }
        });
        mc::settle();
        check!(s.log() == [Cb::Init], "order", "{:?}", s.log());
        mc::settle_for(SEC);
        let sp = sender.pid;
        let mut want = vec![Cb::Init];
        want.extend((0..n as u32).map(|i| match i % 3 {
            0 => Cb::Cast(Q::Note(i)),
            1 => Cb::Exit(sp, ExitR::from("some")),
            _ => Cb::Call(Q::Note(i), sp),
        }));
        check!(s.log() == want, "order", "{:?} instead of {:?}", s.log(), want);
        no_stray_panics(&[]);
        mc::outcome(n);
    })
}

/// Many processes stop a server at once, behind many messages.
fn c12() -> Scenario {
    crowd(4, || {
        let n = many();
        let s = Srv::new();
        let pid = start_server(&s, GenServerOptions::new());
        let out: Shared<Vec<Result<(), ExitR>>> = Shared::new(vec![]);
        let sender = Agent::spawn("sender");
        sender.call(move || {
            Srv::cast(pid, Q::Slow(0, 10));
            (1..n as u32).for_each(|i| Srv::cast(pid, Q::Note(i)))
        });
        mc::settle();
        for i in 0..n {
            let out = out.clone();
            proc("stopper", async move {
                let r = Srv::stop(pid, if i % 2 == 0 { ExitReason::Normal } else { ExitReason::from("other") }, None).await;
                out.push(r.map_err(|e| e.into()));
            });
            mc::settle();
        }
        mc::settle_for(SEC);
        let got = out.get();
        check!(got.len() == n && !Process::alive(pid), "stop-hang", "{:?}", got);
        let ok = got.iter().filter(|r| r.is_ok()).count();
        check!(ok == n.div_ceil(2) && got.iter().all(|r| r.is_ok() || *r == Err(ExitR::Normal)), "stop-result", "{:?}", got);
        let mut want = vec![Cb::Init, Cb::Cast(Q::Slow(0, 10))];
        want.extend((1..n as u32).map(|i| Cb::Cast(Q::Note(i))));
        want.push(Cb::Term(ExitR::Normal));
        check!(s.log() == want, "terminate", "{:?}", s.log());
        no_stray_panics(&[]);
        mc::outcome(n);
    })
}

fn big_sup(ctl: &Ctl, ids: &[&'static str], set: impl Fn(usize, ChildSpec) -> ChildSpec, kind: impl Fn(usize) -> Kind) -> Supervisor {
    let mut s = Supervisor::new();
    for (i, id) in ids.iter().enumerate() {
        s = s.add_child(set(i, ctl.spec(id, kind(i))));
    }
    s
}

/// Children of all restart modes end at once, in many ways.
fn c13() -> Scenario {
    crowd(4, || {
        let n = many();
        let ctl = Ctl::new();
        let names = ids("c", n);
        let modes = [Restart::Permanent, Restart::Transient, Restart::Temporary];
        let pid = start_sup(big_sup(&ctl, &names, |i, s| s.restart(modes[i % 3]), |_| Kind::Plain).max_restarts(100_000)).unwrap();
        let cmds = [Cmd::Return, Cmd::Panic, Cmd::ExitShutdown, Cmd::ExitKill, Cmd::ExitBad];
        let first: Vec<_> = names.iter().map(|c| ctl.running(c)).collect();
        // All but the last end; every seventh restart fails a few times.
        for (i, c) in names.iter().enumerate().take(n - 1) {
            if i % 7 == 0 {
                for _ in 0..3 {
                    ctl.plan(c, Plan::Fail("no"));
                }
            }
            ctl.cmd(c, cmds[i % 5]);
        }
        mc::settle_for(10 * SEC);
        for (i, c) in names.iter().enumerate() {
            let again = i == n - 1 || i % 3 == 0 || (i % 3 == 1 && cmds[i % 5].abnormal());
            let now = ctl.running(c);
            check!(now.len() == again as usize, "restart", "child {} of {}: {:?}", i, n, now);
            check!((now == first[i]) == (i == n - 1), "untouched", "child {}", i);
        }
        check!(Process::alive(pid), "sup-died", "");
        ctl.check_single();
        no_stray_panics(&[]);
        mc::outcome(n);
    })
}

/// Large groups restart in order.
fn c14() -> Scenario {
    crowd(12, || {
        let n = many();
        let s = mc::choose(3);
        let ctl = Ctl::new();
        let names = ids("c", n);
        let strategy = [SupervisionStrategy::OneForOne, SupervisionStrategy::OneForAll, SupervisionStrategy::RestForOne][s];
        let pid = start_sup(big_sup(&ctl, &names, |_, s| s, |i| if i % 2 == 0 { Kind::Plain } else { Kind::Trap(3) }).strategy(strategy).max_restarts(100)).unwrap();
        for i in [n / 2, 0, n - 1] {
            let from = ctl.log().len();
            // Another start of the group fails once.
            if s != 0 && i == n / 2 {
                ctl.plan(names[n - 1], Plan::Fail("no"));
            }
            ctl.cmd(names[i], Cmd::Panic);
            mc::settle_for(60 * SEC);
            let log = ctl.log()[from..].to_vec();
            let starts: Vec<&str> = log.iter().filter_map(|l| if let L::Start(i, _) = l { Some(*i) } else { None }).collect();
            let want: Vec<&str> = match s {
                0 => vec![names[i]],
                1 => names.clone(),
                _ => names[i..].to_vec(),
            };
            check!(starts.ends_with(&want), "restart-set", "strategy {}, child {} of {}: {:?}", s, i, n, log);
            if s != 0 && i == n / 2 {
                continue;
            }
            check!(starts == want, "restart-set", "strategy {}, child {} of {}: {:?}", s, i, n, log);
            let mut ends: Vec<&str> = log.iter().filter_map(|l| if let L::End(i, _) = l { Some(*i) } else { None }).collect();
            ends.sort();
            check!(ends == want, "restart-set", "strategy {}, child {} of {}: {:?}", s, i, n, log);
            let first = log.iter().position(|l| matches!(l, L::Start(..))).unwrap();
            check!(!log[first..].iter().any(|l| matches!(l, L::End(..))), "restart-order", "{:?}", log);
        }
        check!(Process::alive(pid) && names.iter().all(|c| ctl.running(c).len() == 1), "not-running", "");
        ctl.check_single();
        no_stray_panics(&[]);
        mc::outcome((n, s));
    })
}

/// Intensities of any size: the limit is exact.
fn c15() -> Scenario {
    crowd(12, || {
        let max = [0, 1, 4, 10, 64, 200][mc::choose(6)];
        // Within the time frame, or each just outside of that of the first ones.
        let slow = mc::choose(2) == 1;
        let ctl = Ctl::new();
        let pid = start_sup(Supervisor::new().add_child(ctl.spec("a", Kind::Plain)).max_restarts(max).max_duration(ms(1000 * max as u64 + 500))).unwrap();
        for i in 0..max + 3 {
            if !ctl.cmd("a", Cmd::Panic) {
                mc::violation("not-running", &format!("at most {}, after {} restarts", max, i));
            }
            mc::settle();
            // At one per second exactly `max` lie in the time frame with the new one being the next; slower never exceeds.
            let over = if slow { max == 0 } else { i + 1 > max };
            check!(Process::alive(pid) != over, "intensity", "at most {}: alive {} after {} restarts", max, Process::alive(pid), i + 1);
            if over {
                break;
            }
            mc::settle_for(if slow { 1600 * MS } else { 900 * MS });
        }
        no_stray_panics(&[]);
        mc::outcome((max, slow));
    })
}

/// Many children by request: started, listed, counted, terminated, restarted and deleted.
fn c16() -> Scenario {
    crowd(4, || {
        let n = many();
        let ctl = Ctl::new();
        let mut names = ids("c", n);
        if n > 9 {
            names.extend(["", " ", "c", "C", "c ", "c0001 ", "C0001", "c\0", "1", "x"]);
        }
        let n = names.len();
        let pid = start_sup(Supervisor::new()).unwrap();
        let client = Agent::spawn("client");
        let mut pids = vec![];
        for (i, id) in names.iter().enumerate() {
            let mut spec = ctl.spec(id, Kind::Plain);
            if i % 5 == 4 {
                spec = spec.restart(Restart::Temporary);
            }
            if i % 4 == 3 {
                spec = spec.child_type(ChildType::Supervisor);
            }
            let got = client.exec(move || async move { Supervisor::start_child(pid, spec).await.map_err(sup_e) }).unwrap();
            check!(matches!(got, Ok(Some(_))), "start", "{}: {:?}", i, got);
            pids.push(got.unwrap().unwrap());
        }
        let again = ctl.spec(names[n / 2], Kind::Plain);
        let got = client.exec(move || async move { Supervisor::start_child(pid, again).await.map_err(sup_e) }).unwrap();
        check!(got == Err(SupE::AlreadyStarted), "start", "again: {:?}", got);
        let info = |f: &dyn Fn(usize) -> Option<bool>| -> Vec<Info> {
            (0..n).filter_map(|i| f(i).map(|up| Info { id: names[i].to_string(), running: up, supervisor: i % 4 == 3, restarting: false })).collect()
        };
        let list = || client.exec(move || which(pid)).unwrap().unwrap();
        check!(list() == info(&|_| Some(true)), "list", "{:?}", list());
        let counts = || {
            let c = client.exec(move || Supervisor::count_children(pid)).unwrap().unwrap();
            (c.specs, c.active, c.supervisors, c.workers)
        };
        let sups = n / 4;
        check!(counts() == (n, n, sups, n - sups), "count", "{:?} of {}", counts(), n);
        for i in (0..n).filter(|i| i % 3 == 0) {
            let id = names[i];
            let got = client.exec(move || async move { Supervisor::terminate_child(pid, id).await.map_err(sup_e) }).unwrap();
            check!(got == Ok(()) && !Process::alive(pids[i]), "terminate", "{}: {:?}", i, got);
        }
        let temp = |i: usize| i % 5 == 4;
        check!(list() == info(&|i| if i % 3 != 0 { Some(true) } else if temp(i) { None } else { Some(false) }), "list", "{:?}", list());
        for i in (0..n).filter(|i| i % 3 == 0) {
            let id = names[i];
            if i % 2 == 0 {
                let got = client.exec(move || async move { Supervisor::restart_child(pid, id).await.map_err(sup_e) }).unwrap();
                let want = if temp(i) { got == Err(SupE::NotFound) } else { matches!(got, Ok(Some(_))) };
                check!(want, "restart", "{}: {:?}", i, got);
            } else {
                let got = client.exec(move || async move { Supervisor::delete_child(pid, id).await.map_err(sup_e) }).unwrap();
                check!(got == if temp(i) { Err(SupE::NotFound) } else { Ok(()) }, "delete", "{}: {:?}", i, got);
            }
        }
        let left = |i: usize| if i % 3 != 0 || (i % 2 == 0 && !temp(i)) { Some(true) } else { None };
        check!(list() == info(&left), "list", "{:?}", list());
        for i in 0..n {
            check!(ctl.running(names[i]).len() == left(i).is_some() as usize, "running", "{}", i);
            check!(i % 3 == 0 || Process::alive(pids[i]), "untouched", "{}", i);
        }
        ctl.check_single();
        no_stray_panics(&[]);
        mc::outcome(n);
    })
}

/// Many children are ended in reverse order, one by one.
fn c17() -> Scenario {
    crowd(8, || {
        let n = many();
        let stop = mc::choose(2) == 1;
        let ctl = Ctl::new();
        let names = ids("c", n);
        let kind = |i: usize| [Kind::Plain, Kind::Trap(0), Kind::Trap(30), Kind::Trap(500), Kind::Stubborn][i % 5];
        let set = |i: usize, s: ChildSpec| match i % 3 {
            0 => s,
            1 => s.shutdown(ms(100)),
            _ => s.shutdown(Shutdown::BrutalKill),
        };
        let sup = big_sup(&ctl, &names, set, kind);
        let from = n;
        let parent = Agent::spawn("parent");
        let pid = parent.exec(move || async move { sup.start_link(SupervisorOptions::new()).await.unwrap() }).unwrap();
        let end = watch_end(pid);
        if stop {
            proc("stopper", async move {
                let _ = Supervisor::stop(pid, ExitReason::from("shutdown"), None).await;
            });
        } else {
            parent.panic();
        }
        mc::settle_for(3600 * SEC);
        let log = ctl.log()[from..].to_vec();
        check!(!ctl.any_running() && !Process::alive(pid), "left", "{:?}", log);
        let mut want = vec![];
        for i in (0..n).rev() {
            if i % 3 != 2 && kind(i) != Kind::Plain {
                want.push(L::Asked(names[i], i));
            }
            want.push(L::End(names[i], i));
        }
        check!(log == want, "shutdown-order", "{:?} instead of {:?}", log, want);
        check!(end.get() == [ExitR::from(if stop { "shutdown" } else { "boom" })], "end-reason", "{:?}", end.get());
        no_stray_panics(&[]);
        mc::outcome((n, stop));
    })
}

/// Many significant children: the last one counts.
fn c18() -> Scenario {
    crowd(12, || {
        let n = many();
        let how = mc::choose(3);
        let ctl = Ctl::new();
        let names = ids("c", n);
        let mode = [AutoShutdown::AnySignificant, AutoShutdown::AllSignificant, AutoShutdown::Never][how];
        // Every fourth is not significant.
        let sig = |i: usize| i % 4 != 3;
        let sup = big_sup(&ctl, &names, |i, s| s.restart(if i % 2 == 0 { Restart::Temporary } else { Restart::Transient }).significant(sig(i)), |_| Kind::Plain).auto_shutdown(mode);
        let pid = start_sup(sup).unwrap();
        let end = watch_end(pid);
        let mut left = (0..n).filter(|i| sig(*i)).count();
        // From the middle on, around.
        for k in 0..n {
            let i = (k + n / 2) % n;
            ctl.cmd(names[i], Cmd::Return);
            mc::settle();
            left -= sig(i) as usize;
            let over = match how {
                0 => (0..=k).any(|k| sig((k + n / 2) % n)),
                1 => left == 0,
                _ => false,
            };
            check!(Process::alive(pid) != over, "auto-shutdown", "{:?}, {} of {} significant ones left, alive {}", how, left, n, Process::alive(pid));
            if over {
                break;
            }
        }
        mc::settle_for(60 * SEC);
        if how < 2 {
            check!(end.get() == [ExitR::from("shutdown")] && !ctl.any_running(), "end-reason", "{:?}", end.get());
        } else {
            check!(Process::alive(pid), "auto-shutdown", "never");
        }
        no_stray_panics(&[]);
        mc::outcome((n, how));
    })
}

fn keys(n: usize) -> Vec<RegistryKey> {
    let mut v: Vec<RegistryKey> = vec![];
    for x in [0i32, 1, -1, i32::MAX, i32::MIN] {
        v.extend([RegistryKey::from(x), RegistryKey::from(x as i64), RegistryKey::from(x as i128), RegistryKey::from(x as u32), RegistryKey::from(x as u64), RegistryKey::from(x as u128), RegistryKey::from(x.to_string())]);
    }
    v.extend([RegistryKey::from(i64::MAX), RegistryKey::from(i64::MIN), RegistryKey::from(u64::MAX), RegistryKey::from(i128::MIN), RegistryKey::from(u128::MAX), RegistryKey::from(String::new()), RegistryKey::from("1 "), RegistryKey::from("x".repeat(500))]);
    v.extend((0..n).map(|i| RegistryKey::from(format!("key{}", i))));
    let all: BTreeSet<RegistryKey> = v.into_iter().collect();
    all.into_iter().collect()
}

/// A registry whose processes just wait.
fn plain_registry(name: &str) -> (Pid, Shared<Vec<(RegistryKey, Pid)>>) {
    let log: Shared<Vec<(RegistryKey, Pid)>> = Shared::new(vec![]);
    let l = AssertSend(log.clone());
    let r = Registry::new(name).with_start(move |key| {
        let l = AssertSend((&l).0.clone());
        AssertSend(async move {
            let p = Process::spawn_link(async { std::future::pending().await });
            { &l }.0.push((key, p));
            Ok(p)
        })
    });
    (super::c19_registry::start_reg(r, RegistryOptions::new()).unwrap(), log)
}

/// Keys of all types and many of them, by name and by identifier.
fn c19() -> Scenario {
    crowd(8, || {
        let ks = keys(many());
        let by_name = mc::choose(2) == 0;
        let (pid, log) = plain_registry("reg");
        let dest = move || if by_name { Dest::from("reg") } else { Dest::from(pid) };
        let client = Agent::spawn("client");
        let mut table: BTreeMap<RegistryKey, Pid> = BTreeMap::new();
        for (i, k) in ks.iter().enumerate() {
            let (k2, d) = (k.clone(), dest());
            let got = if i % 2 == 0 {
                client.exec(move || async move { Registry::start_process(d, k2, None).await.ok() })
            } else {
                client.exec(move || async move { Registry::lookup_or_start(d, k2, None).await.ok() })
            };
            let got = got.unwrap().unwrap_or_else(|| mc::violation("not-started", &format!("{:?}", k)));
            check!(log.get().last() == Some(&(k.clone(), got)), "not-started", "{:?}: {:?}", k, log.get().last());
            table.insert(k.clone(), got);
        }
        let l = super::c19_registry::list(&client, dest);
        check!(l == table, "table", "{:?}", l);
        for (i, k) in ks.iter().enumerate() {
            let (k2, d) = (k.clone(), dest());
            match i % 4 {
                0 => {
                    let got = client.exec(move || async move { Registry::remove(d, k2, None).await.ok() }).unwrap();
                    check!(got == Some(table.get(k).copied()) && Process::alive(table[k]), "remove", "{:?}: {:?}", k, got);
                    table.remove(k);
                }
                1 => {
                    let got = client.exec(move || async move { Registry::stop_process(d, k2, None).await.is_ok() }).unwrap();
                    mc::settle();
                    check!(got && !Process::alive(table[k]), "stop", "{:?}", k);
                    table.remove(k);
                }
                2 => {
                    signal(table[k], ExitReason::Kill);
                    mc::settle();
                    table.remove(k);
                }
                _ => (),
            }
        }
        mc::settle();
        for k in &ks {
            let (k2, d) = (k.clone(), dest());
            let got = client.exec(move || async move { Registry::lookup(d, k2, None).await.ok() }).unwrap();
            check!(got == Some(table.get(k).copied()), "lookup", "{:?}: {:?}", k, got);
        }
        let l = super::c19_registry::list(&client, dest);
        check!(l == table && table.values().all(|p| Process::alive(*p)), "table", "{:?}", l);
        no_stray_panics(&[]);
        mc::outcome((ks.len(), by_name));
    })
}

/// A registry with many processes ends.
fn c20() -> Scenario {
    crowd(8, || {
        let ks = keys(many());
        let how = mc::choose(2);
        let (pid, log) = plain_registry("reg");
        let (_, other) = plain_registry("other");
        let client = Agent::spawn("client");
        for k in &ks {
            for d in ["reg", "other"] {
                let k = k.clone();
                client.exec(move || async move { Registry::start_process(d, k, None).await.unwrap() });
            }
        }
        let removed: Vec<Pid> = log.get().iter().step_by(3).map(|x| x.1).collect();
        for (k, _) in log.get().into_iter().step_by(3) {
            client.exec(move || async move { Registry::remove("reg", k, None).await.unwrap() });
        }
        mc::settle();
        if how == 0 {
            proc("stopper", async move {
                let _ = Registry::stop(pid, ExitReason::from("shutdown"), None).await;
            });
        } else {
            signal(pid, ExitReason::Kill);
        }
        mc::settle_for(60 * SEC);
        for (k, p) in log.get() {
            check!(Process::alive(p) == removed.contains(&p), "left", "{:?} {:?}", k, p);
        }
        check!(other.get().iter().all(|x| Process::alive(x.1)), "other-registry", "");
        let (_, log2) = plain_registry("reg");
        check!(super::c19_registry::list(&client, || Dest::from("reg")).is_empty() && log2.get().is_empty(), "stale", "");
        no_stray_panics(&[]);
        mc::outcome((ks.len(), how));
    })
}

/// Rings of many nodes: only the keys of the changed node move.
fn c22() -> Scenario {
    crowd(4, || {
        let n = many() as u32;
        let r: HashRing<u32> = HashRing::new();
        let map = |r: &HashRing<u32>| (0..600u32).map(|k| r.find_node(("key", k))).collect::<Vec<_>>();
        let mut old = map(&r);
        check!(old.iter().all(|v| v.is_none()), "unknown-node", "empty");
        for i in 0..n {
            check!(r.add_node(("node", i), i).is_none(), "add-result", "{}", i);
            let now = map(&r);
            for (o, v) in old.iter().zip(&now) {
                check!(o == v || *v == Some(i), "moved", "adding {} of {}: {:?} to {:?}", i, n, o, v);
            }
            old = now;
        }
        // The same ring in another order, and at once.
        r.set_nodes((0..n).rev().map(|i| (("node", i), i)));
        check!(map(&r) == old, "order", "{} nodes", n);
        r.clear();
        r.add_nodes((0..n).map(|i| (("node", (i + n / 2) % n), (i + n / 2) % n)));
        check!(map(&r) == old, "order", "{} nodes", n);
        for i in (0..n).rev().step_by(2) {
            check!(r.remove_node(("node", i)) == Some(i), "remove-result", "{}", i);
            let now = map(&r);
            for (o, v) in old.iter().zip(&now) {
                check!(o == v || *o == Some(i), "moved", "removing {} of {}: {:?} to {:?}", i, n, o, v);
            }
            old = now;
        }
        let left: Vec<u32> = (0..n).filter(|i| (n - 1 - i) % 2 == 1).collect();
        check!(old.iter().all(|v| v.is_some_and(|v| left.contains(&v)) || (left.is_empty() && v.is_none())), "unknown-node", "{:?}", left);
        r.set_nodes(left.iter().map(|i| (("node", *i), *i)));
        check!(map(&r) == old, "order", "{} nodes, after removals", left.len());
        mc::outcome(n);
    })
}

/// Many wait for one, several or all permits: in order, each in the end.
fn c23() -> Scenario {
    crowd(8, || {
        let n = many();
        let max = [4usize, 100_000][mc::choose(2)];
        let s = Arc::new(OwnedSemaphore::new(max));
        let used: Shared<usize> = Shared::new(0);
        let order: Shared<Vec<usize>> = Shared::new(vec![]);
        let need = move |i: usize| [1, 2, max, max / 2, 3][i % 5] as u32;
        for i in 0..n {
            let (s, used, order) = (s.clone(), used.clone(), order.clone());
            proc("user", async move {
                let p = s.acquire_many_owned(need(i)).await;
                order.push(i);
                let total = used.with(|u| {
                    *u += need(i) as usize;
                    *u
                });
                check!(total <= max, "too-many", "{} of {}", total, max);
                Process::sleep(ms(1 + i as u64 % 3)).await;
                used.with(|u| *u -= need(i) as usize);
                drop(p);
            });
            mc::settle();
        }
        mc::settle_for(60 * SEC);
        check!(order.get() == (0..n).collect::<Vec<_>>(), "order", "{:?}", order.get());
        // All are back.
        let s2 = s.clone();
        let all: Shared<bool> = Shared::new(false);
        let a2 = all.clone();
        proc("last", async move {
            let _p = s2.acquire_many(max as u32).await;
            check!(s2.try_acquire().is_err(), "too-many", "");
            a2.set(true);
        });
        mc::settle();
        check!(all.get(), "lost", "");
        no_stray_panics(&[]);
        mc::outcome((n, max));
    })
}

/// Many tasks, ending in any order.
fn c24() -> Scenario {
    crowd(3, || {
        let how = mc::choose(3);
        let a = Agent::spawn("a");
        let got = a
            .exec(move || async move {
                let tasks: [TaskHandle<u32>; 64] = std::array::from_fn(|i| {
                    Task::spawn(async move {
                        match how {
                            0 => Process::sleep(ms((64 - i) as u64 * 10)).await,
                            1 => Process::sleep(ms((i * 37 % 64) as u64 * 10)).await,
                            _ => (),
                        }
                        i as u32
                    })
                });
                Task::await_many(tasks).await.ok()
            })
            .unwrap();
        check!(got == Some((0..64).collect()), "results", "{:?}", got);
        no_stray_panics(&[]);
        mc::outcome(how);
    })
}

/// A burst of messages larger than the buffers of a connection, in all forms, before and after it is made.
fn c27() -> Scenario {
    crowd(16, || {
        let n = many() * 2;
        let size = [0usize, 100_000 / n + 3000][mc::choose(2)];
        let conn = mc::choose(2) == 1;
        mc::setup_begin();
        up(0);
        up(1);
        mcnet::set_capacity(4096);
        let (a, b) = (Rem::spawn(0, "a"), Rem::spawn(1, "b"));
        mc::settle();
        if conn {
            connect(&a, 1);
        }
        let (p, al) = b.call(|| (Process::current(), Process::alias(false))).unwrap();
        on(1, || Process::register(p, "b").unwrap());
        let (rp, ra) = (move_to(1, 0, &p), move_to(1, 0, &al));
        mc::setup_end();
        let text = move |i: usize| Other(format!("{}:{}", i, "x".repeat(size)));
        a.post(move || async move {
            if !conn {
                Node::connect(node_of(1));
            }
            for i in 0..n {
                match i % 4 {
                    0 => Process::send(rp, text(i)),
                    1 => Process::send(Dest::from(("b", node_of(1))), text(i)),
                    2 => Process::send(ra, text(i)),
                    _ => Process::send(vec![Dest::from(rp)], text(i)),
                }
                if i == n / 2 {
                    Process::sleep(ms(1)).await;
                }
            }
        });
        mc::settle_for(SEC);
        let got: Vec<Other> = b.exec(drain::<Other>).unwrap().into_iter().map(|m| if let Message::User(o) = m { o } else { mc::violation("alien-message", "") }).collect();
        let want: Vec<Other> = (0..n).map(text).collect();
        let short = |v: &[Other]| v.iter().map(|o| o.0.split(':').next().unwrap_or("?").to_string()).collect::<Vec<_>>().join(" ");
        check!(got == want, "order", "{} messages of {} bytes: {}", n, size, short(&got));
        check!(connected(0, 1), "lost", "");
        quiet_conn();
        mc::outcome((n, size, conn));
    })
}

/// Many watches across a connection: of one process by many from two nodes, and of many by one; ended in three ways.
fn c28() -> Scenario {
    crowd(24, || {
        let n = many().min(60);
        let many_targets = mc::choose(2) == 1;
        let fate = mc::choose(3);
        mc::setup_begin();
        for i in 0..3 {
            up(i);
        }
        let t = if many_targets { n } else { 1 };
        let targets: Vec<Rem> = (0..t).map(|_| Rem::spawn(1, "target")).collect();
        let (w0, w2) = (if many_targets { 1 } else { n }, 2);
        let ws: Vec<Rem> = (0..w0).map(|_| Rem::spawn(0, "w0")).chain((0..w2).map(|_| Rem::spawn(2, "w2"))).collect();
        for w in &ws {
            w.call(|| trap());
        }
        mc::settle();
        mc::setup_end();
        // Each watches by monitor, and links.
        let mut refs: Vec<Vec<Reference>> = vec![];
        for w in &ws {
            let rps: Vec<Pid> = targets.iter().map(|t| t.pid_on(w.n)).collect();
            refs.push(w.call(move || rps.iter().map(|p| { Process::link(*p); Process::monitor(*p) }).collect()).unwrap());
        }
        mc::settle();
        let rps: Vec<Vec<Pid>> = ws.iter().map(|w| targets.iter().map(|t| t.pid_on(w.n)).collect()).collect();
        let reason = match fate {
            0 => {
                targets.iter().for_each(|t| t.a.panic());
                ExitR::from("boom")
            }
            1 => {
                let f = Rem::spawn(1, "far");
                f.post(|| async { Node::stop() });
                ExitR::from("noconnection")
            }
            _ => {
                (0..mcnet::connections()).for_each(mcnet::reset);
                ExitR::from("noconnection")
            }
        };
        mc::settle_for(SEC);
        for ((w, refs), rps) in ws.iter().zip(&refs).zip(rps) {
            let mut got = w.events();
            got.sort();
            let mut want: Vec<Ev> = vec![];
            for (p, r) in rps.into_iter().zip(refs) {
                want.push(Ev::Exit(p, reason.clone()));
                want.push(Ev::Down(DestR::Pid(p), *r, reason.clone()));
            }
            want.sort();
            check!(got == want, "report", "on node {}: {:?} instead of {:?}", w.n, got, want);
        }
        mc::settle_for(100 * SEC);
        check!(ws.iter().all(|w| w.events().is_empty()), "twice", "");
        quiet_conn();
        mc::outcome((n, many_targets, fate));
    })
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum Ids {
    All(Vec<Pid>, Vec<Reference>, BTreeMap<String, Option<Pid>>),
}

/// Large structures full of identifiers, over two hops and back.
fn c30() -> Scenario {
    crowd(4, || {
        let n = many();
        mc::setup_begin();
        for i in 0..3 {
            up(i);
        }
        let at: Vec<Rem> = (0..3).map(|i| Rem::spawn(i, "relay")).collect();
        mc::settle();
        for i in 0..3 {
            connect(&at[i], (i + 1) % 3);
        }
        mc::setup_end();
        // Processes of all three nodes, with the same numbers; written down on node 0.
        let ps: Vec<Rem> = (0..n).map(|i| Rem::spawn(i % 3, "p")).collect();
        let als: Vec<Reference> = ps.iter().map(|p| move_to(p.n, 0, &p.call(|| Process::alias(false)).unwrap())).collect();
        let pids: Vec<Pid> = ps.iter().map(|p| p.pid_on(0)).collect();
        let v = Ids::All(pids.clone(), als.clone(), pids.iter().enumerate().map(|(i, p)| (i.to_string(), (i % 2 == 0).then_some(*p))).collect());
        let mut cur = v.clone();
        let mut here = 0;
        for next in [1, 2, 0] {
            let to = at[next].pid_on(here);
            let c = cur.clone();
            at[here].call(move || Process::send(to, c));
            mc::settle();
            let got = at[next].exec(drain::<Ids>).unwrap();
            let [Message::User(m)] = &got[..] else { mc::violation("lost", &format!("{} messages", got.len())) };
            cur = m.clone();
            here = next;
            let Ids::All(pids, als, _) = &cur;
            for (i, p) in ps.iter().enumerate() {
                check!(pids[i].is_local() == (p.n == here) && als[i].is_local() == (p.n == here), "local", "{} on node {}", i, here);
            }
            // They lead where they should.
            let (p2, a2) = (pids.clone(), als.clone());
            at[here].call(move || {
                for (i, (p, a)) in p2.into_iter().zip(a2).enumerate() {
                    Process::send(p, M::N(i as u32));
                    Process::send(a, M::N(i as u32));
                }
            });
            mc::settle();
            for (i, p) in ps.iter().enumerate() {
                check!(p.events() == vec![Ev::Msg(M::N(i as u32)); 2], "wrong-process", "{} from node {}", i, here);
            }
        }
        check!(cur == v, "equal", "{:?} is {:?}", v, cur);
        quiet_conn();
        mc::outcome(n);
    })
}
