//! C08: timers fire exactly once, never early, and not after they were cancelled.

use crate::util::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![cancel_race(), cancel_due(), short(), timeout_race(), history(), durations()]
}

fn collector(log: Shared<Vec<(u64, Ev)>>) -> Pid {
    proc("collector", async move {
        loop {
            let m = Process::receiver().for_message::<M>().receive().await;
            log.push((mc::now() / MS, ev(m)));
        }
    })
}

/// cancel_timer around the time the timer fires.
fn cancel_race() -> Scenario {
    sc("cancel-vs-fire", (3, 5), 3).timers(50).run(|| {
        let log = Shared::new(Vec::new());
        let c = collector(log.clone());
        let gate = Gate::new();
        let when = Shared::new(0u64);
        let (cancelled, read, tref) = (Shared::new(None), Shared::new(None), Shared::new(None));
        {
            let (gate, when, cancelled, read, tref) = (gate.clone(), when.clone(), cancelled.clone(), read.clone(), tref.clone());
            proc("owner", async move {
                gate.wait().await;
                let t = Process::send_after(c, M::N(1), ms(10));
                tref.set(Some(t));
                Process::sleep(ms(when.get())).await;
                Process::cancel_timer(t);
                cancelled.set(Some(mc::now() / MS));
                read.set(Some(Process::read_timer(t)));
            });
        }
        mc::settle();
        mc::explore();
        let start = mc::now() / MS;
        when.set([5, 10, 15][mc::choose(3)]);
        gate.open();
        mc::settle_for(10 * SEC);
        let log = log.get();
        check!(log.len() <= 1, "timer-count", "{} messages from one timer", log.len());
        if let Some((at, e)) = log.first() {
            check!(*e == Ev::Msg(M::N(1)), "timer-message", "{:?}", e);
            check!(*at >= start + 10, "timer-early", "fired {} ms after it was set", at - start);
        }
        if when.get() == 5 && cancelled.get().unwrap() < start + 10 {
            check!(log.is_empty(), "timer-after-cancel", "a cancelled timer fired");
        }
        check!(read.get() == Some(None), "timer-read", "a cancelled timer still has time left: {:?}", read.get());
        check!(Process::read_timer(tref.get().unwrap()).is_none(), "timer-leak", "a finished timer can still be read");
        no_stray_panics(&[]);
        mc::outcome((when.get(), log.len()));
    })
}

/// What has not come when a cancellation returns does not come any more, even if the timer was due already.
fn cancel_due() -> Scenario {
    sc("cancel-when-due", (3, 5), 3).timers(50).run(|| {
        mc::explore();
        let (by_name, wait, out) = (mc::choose(2) == 1, [10, 11][mc::choose(2)], Shared::new(None));
        let o = out.clone();
        proc("owner", async move {
            let me = Process::current();
            Process::register(me, "owner").unwrap();
            let t = if by_name { Process::send_after("owner", M::N(1), ms(10)) } else { Process::send_after(me, M::N(1), ms(10)) };
            Process::sleep(ms(wait)).await;
            // It is pending, or it has fired.
            let pending = Process::read_timer(t);
            let fired = Process::info(me).unwrap().message_queue_len;
            Process::cancel_timer(t);
            let left = Process::read_timer(t);
            let now = drain::<M>().await.len();
            Process::sleep(ms(1000)).await;
            o.set(Some((now, drain::<M>().await.len(), left, pending, fired)));
        });
        mc::settle_for(10 * SEC);
        let (now, later, left, pending, fired) = out.get().unwrap();
        check!(pending.is_some() || fired == 1, "timer-read", "a timer that has not fired cannot be read");
        check!(pending.is_none_or(|p| p == ms(0)), "timer-read", "a timer that is due has {:?} left", pending);
        check!(now + later <= 1, "timer-count", "{} messages from one timer", now + later);
        check!(later == 0, "timer-after-cancel", "delivered after the cancellation had returned");
        check!(left.is_none(), "timer-read", "a cancelled timer still has time left: {:?}", left);
        no_stray_panics(&[]);
        mc::outcome((by_name, now));
    })
}

/// Timers without delay: fire once, and are gone afterwards.
fn short() -> Scenario {
    sc("zero-delay", (3, 5), 1).timers(50).run(|| {
        let log = Shared::new(Vec::new());
        let c = collector(log.clone());
        let gate = Gate::new();
        let tref = Shared::new(Vec::new());
        {
            let (gate, tref) = (gate.clone(), tref.clone());
            proc("owner", async move {
                gate.wait().await;
                tref.push(Process::send_after(c, M::N(1), ms(0)));
                tref.push(Process::send_after(c, M::N(2), ms(1)));
            });
        }
        mc::settle();
        mc::explore();
        gate.open();
        mc::settle_for(10 * SEC);
        let mut got: Vec<Ev> = log.get().into_iter().map(|e| e.1).collect();
        got.sort();
        check!(got == vec![Ev::Msg(M::N(1)), Ev::Msg(M::N(2))], "timer-count", "{:?}", got);
        for t in tref.get() {
            check!(Process::read_timer(t).is_none(), "timer-leak", "a timer that has fired can still be read");
        }
        no_stray_panics(&[]);
        mc::outcome(got);
    })
}

/// Process::timeout around its deadline.
fn timeout_race() -> Scenario {
    sc("timeout", (2, 4), 3).timers(50).run(|| {
        let gate = Gate::new();
        let when = Shared::new(0u64);
        let out = Shared::new(None);
        {
            let (gate, when, out) = (gate.clone(), when.clone(), out.clone());
            proc("waiter", async move {
                gate.wait().await;
                let begin = mc::now() / MS;
                let r = Process::timeout(ms(10), async {
                    Process::sleep(ms(when.get())).await;
                    7
                })
                .await;
                out.set(Some((r.ok(), mc::now() / MS - begin)));
            });
        }
        mc::settle();
        mc::explore();
        when.set([5, 10, 15][mc::choose(3)]);
        gate.open();
        mc::settle_for(10 * SEC);
        let (r, t) = out.get().unwrap();
        match when.get() {
            5 => check!(t >= 5 && (r == Some(7) || t >= 10), "timeout", "{:?} after {}", r, t),
            10 => check!(t >= 10, "timeout", "{:?} after {}", r, t),
            _ => check!(t >= 10 && (r.is_none() || t >= 15), "timeout", "{:?} after {}", r, t),
        }
        no_stray_panics(&[]);
        mc::outcome((when.get(), r));
    })
}

/// Every duration: to the millisecond.
fn durations() -> Scenario {
    seq("durations", 60).run(|| {
        let log = Shared::new(Vec::new());
        let c = collector(log.clone());
        let o = Agent::spawn("owner");
        let s = crate::srv::Srv::new();
        let server = crate::srv::start_server(&s, GenServerOptions::new());
        mc::settle();
        mc::explore();
        let (i, what) = (mc::choose(SPANS.len()), mc::choose(5));
        let d = SPANS[i];
        let done = Shared::new(None);
        let out = done.clone();
        let t = match what {
            0 => o.call(move || Process::send_after(c, M::N(1), ms(d))),
            1 => o.call(move || crate::srv::Srv::cast_after(server, crate::srv::Q::Note(1), ms(d))),
            2 => {
                o.post(move || async move {
                    Process::sleep(ms(d)).await;
                    out.set(Some(true));
                });
                None
            }
            3 => {
                o.post(move || async move { out.set(Some(Process::timeout(ms(d), std::future::pending::<()>()).await.is_err())) });
                None
            }
            _ => {
                o.post(move || async move { out.set(Some(Process::timeout(ms(d), Process::sleep(ms(d - 1))).await.is_ok())) });
                None
            }
        };
        let fired = move || -> bool {
            match what {
                0 => !log.get().is_empty(),
                1 => s.log().contains(&crate::srv::Cb::Cast(crate::srv::Q::Note(1))),
                _ => done.get() == Some(true),
            }
        };
        let at = if what == 4 { d - 1 } else { d };
        if at > 0 {
            mc::settle_for((at - 1) * MS);
            check!(!fired(), "duration-early", "way {}, {} ms: too early", what, d);
            if let Some(t) = t {
                check!(Process::read_timer(t) == Some(ms(1)), "duration-read", "{} ms: {:?} left 1 ms before", d, Process::read_timer(t));
            }
        }
        mc::settle_for(MS);
        check!(fired(), "duration-late", "way {}, {} ms: not yet", what, d);
        if let Some(t) = t {
            check!(Process::read_timer(t).is_none(), "timer-leak", "a timer that has fired can still be read");
        }
        no_stray_panics(&[]);
        mc::outcome((i, what));
    })
}

/// Every history of setting, reading, cancelling and waiting, against a model.
fn history() -> Scenario {
    let depth = if thorough() { 7 } else { 5 };
    seq("histories", 100).run(move || {
        let log = Shared::new(Vec::new());
        let c = collector(log.clone());
        let o = Agent::spawn("owner");
        mc::settle();
        Process::register(c, "c").unwrap();
        mc::explore();
        // (reference, deadline, number, live)
        let mut timers: Vec<(Reference, u64, u32, bool)> = Vec::new();
        let mut want: Vec<(u64, u32)> = Vec::new();
        let t0 = mc::now() / MS;
        let mut trail = Vec::new();
        for step in 0..depth {
            let op = mc::choose(7);
            trail.push(op);
            let now = mc::now() / MS - t0;
            match op {
                0 | 1 => {
                    let d = if op == 0 { 10 } else { 20 };
                    let n = step as u32;
                    let r = o
                        .call(move || {
                            if d == 10 {
                                Process::send_after(c, M::N(n), ms(d))
                            } else {
                                Process::send_after("c", M::N(n), ms(d))
                            }
                        })
                        .unwrap();
                    timers.push((r, now + d, n, true));
                }
                2 | 3 => {
                    let i = if op == 2 { 0 } else { timers.len().saturating_sub(1) };
                    if let Some(t) = timers.get_mut(i) {
                        let r = t.0;
                        o.call(move || Process::cancel_timer(r));
                        t.3 = false;
                    }
                }
                4 | 5 => {
                    let d = if op == 4 { 5 } else { 10 };
                    mc::settle_for(d * MS);
                    let now = now + d;
                    for t in timers.iter_mut().filter(|t| t.3 && t.1 <= now) {
                        t.3 = false;
                        want.push((t.1, t.2));
                    }
                }
                _ => {
                    // The owner ends or not: its timers stay.
                    if let Some(t) = timers.first() {
                        let _ = t;
                    }
                }
            }
            mc::settle();
            let now = mc::now() / MS - t0;
            for t in &timers {
                let left = Process::read_timer(t.0).map(|d| d.as_millis() as u64);
                let expect = t.3.then(|| t.1 - now);
                check!(left == expect, "history-read", "after {:?}: time left {:?}, expected {:?}", trail, left, expect);
            }
            want.sort();
            let mut got: Vec<(u64, u32)> = log
                .get()
                .into_iter()
                .map(|(at, e)| match e {
                    Ev::Msg(M::N(n)) => (at - t0, n),
                    _ => mc::violation("history-event", "unexpected"),
                })
                .collect();
            check!(got.windows(2).all(|w| w[0].0 <= w[1].0), "history-order", "after {:?}: {:?}", trail, got);
            got.sort();
            check!(got == want, "history-fire", "after {:?}: fired {:?}, expected {:?}", trail, got, want);
        }
        no_stray_panics(&[]);
        mc::outcome(trail);
    })
}
