//! C10: a call returns the reply to that call, or says truly why there is none.

use crate::srv::*;
use crate::util::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![two_callers(), timeout_race(), call_vs_end(), history(), durations()]
}

/// Two callers of one server, whose replies come at once, later from another process, or never.
fn two_callers() -> Scenario {
    sc("two-callers", (2, 3), 6).run(|| {
        let gate = Gate::new();
        let s = Srv::new();
        let pid = start_server(&s, GenServerOptions::new().name("srv"));
        let mode = Shared::new(0usize);
        let res: Vec<Shared<Vec<CallR>>> = (0..2).map(|_| Shared::new(Vec::new())).collect();
        let stray = Shared::new(Vec::new());
        for i in 0..2u32 {
            let (gate, mode, out, stray) = (gate.clone(), mode.clone(), res[i as usize].clone(), stray.clone());
            proc("caller", async move {
                gate.wait().await;
                for k in 0..2u32 {
                    let n = (i + 1) * 10 + k;
                    let q = match (mode.get(), k) {
                        (1, _) | (2, 0) => Q::Defer(n),
                        (3, 1) => Q::Fail(n),
                        _ => Q::Echo(n),
                    };
                    let r = if i == 0 { call(pid, q, None).await } else { call("srv", q, None).await };
                    out.push(r);
                }
                stray.with(|s| s.clear());
                let e = events().await;
                stray.with(|s| s.extend(e));
            });
        }
        // Replies to whatever was put off, newest first if two came together.
        let replier = proc("replier", async move {
            loop {
                let Message::User(Deferred(f, n)) = Process::receive::<Deferred>().await else { continue };
                tokio::task::yield_now().await;
                if let Some(Message::User(Deferred(f, n))) = poll_once(Process::receive::<Deferred>()).await {
                    Srv::reply(f, Q::Ans(n));
                }
                Srv::reply(f, Q::Ans(n));
            }
        });
        s.forward.set(Some(replier));
        mc::settle();
        mc::explore();
        let m = mc::choose(4);
        mode.set(m);
        gate.open();
        mc::settle();
        mc::settle_for(20 * SEC);
        let all: Vec<Vec<CallR>> = res.iter().map(|r| r.get()).collect();
        for i in 0..2u32 {
            let r = &all[i as usize];
            check!(r.len() == 2, "call-hang", "mode {}: caller {} finished {} of 2 calls", m, i, r.len());
            for k in 0..2u32 {
                let n = (i + 1) * 10 + k;
                let own = CallR::Ok(Q::Ans(n));
                let got = &r[k as usize];
                let ok = match m {
                    // Whoever's request is handled first brings the server down.
                    3 => match got {
                        CallR::Ok(q) => *q == Q::Ans(n) && k == 0,
                        CallR::Down(r) => *r == ExitR::from("noproc") || matches!(r, ExitR::Custom(s) if s == "fail11" || s == "fail21"),
                        CallR::Timeout => false,
                    },
                    _ => *got == own,
                };
                check!(ok, "call-result", "mode {}: caller {} call {}: {:?} of {:?}", m, i, k, got, all);
            }
        }
        if m == 3 {
            // The one whose request stopped it learns the reason.
            let n = s.terms();
            check!(n.len() == 1, "call-fail", "terminate ran {} times", n.len());
            let who = if n[0] == ExitR::from("fail11") { 0 } else { 1 };
            check!(all[who][1] == CallR::Down(n[0].clone()), "call-fail", "the failed caller got {:?}", all[who][1]);
        }
        check!(stray.get().is_empty(), "call-stray", "left after the calls: {:?}", stray.get());
        no_stray_panics(&[]);
        mc::outcome((m, all));
    })
}

/// A reply around the deadline of its call; the next call is not confused by it.
fn timeout_race() -> Scenario {
    sc("timeout-vs-reply", (2, 4), 3).timers(100).run(|| {
        let gate = Gate::new();
        let s = Srv::new();
        let pid = start_server(&s, GenServerOptions::new());
        let when = Shared::new(0u64);
        let res = Shared::new(Vec::new());
        let stray = Shared::new(Vec::new());
        {
            let (gate, when, res, stray) = (gate.clone(), when.clone(), res.clone(), stray.clone());
            proc("caller", async move {
                gate.wait().await;
                let a = mc::now() / MS;
                let r = call(pid, Q::Slow(1, when.get()), Some(10)).await;
                res.push((r, mc::now() / MS - a));
                let r = call(pid, Q::Echo(2), Some(1000)).await;
                res.push((r, 0));
                let r = call(pid, Q::Echo(3), Some(1000)).await;
                res.push((r, 0));
                stray.set(events().await);
            });
        }
        mc::settle();
        mc::explore();
        let w = [5, 10, 15][mc::choose(3)];
        when.set(w);
        gate.open();
        mc::settle_for(100 * SEC);
        let r = res.get();
        check!(r.len() == 3, "call-hang", "{} of 3 calls finished", r.len());
        match &r[0].0 {
            CallR::Ok(q) => check!(*q == Q::Ans(1) && r[0].1 >= w, "call-result", "{:?}", r),
            CallR::Timeout => check!(r[0].1 >= 10, "call-early", "timed out after {} ms", r[0].1),
            x => mc::violation("call-result", &format!("{:?}", x)),
        }
        for k in 1..3 {
            check!(r[k].0 == CallR::Ok(Q::Ans(k as u32 + 1)), "call-stale", "after {:?}, call {} returned {:?}", r[0], k + 1, r[k].0);
        }
        check!(stray.get().is_empty(), "call-stray", "left after the calls: {:?}", stray.get());
        no_stray_panics(&[]);
        mc::outcome((w, r[0].0.clone()));
    })
}

/// A call against the end of its server.
fn call_vs_end() -> Scenario {
    sc("call-vs-end", (2, 4), 8).run(|| {
        let gate = Gate::new();
        let s = Srv::new();
        let pid = start_server(&s, GenServerOptions::new().name("srv"));
        let (kind, how) = (Shared::new(0usize), Shared::new(0usize));
        let res = Shared::new(None);
        let stray = Shared::new(Vec::new());
        {
            let (gate, res, stray, how) = (gate.clone(), res.clone(), stray.clone(), how.clone());
            proc("caller", async move {
                gate.wait().await;
                let r = match how.get() {
                    0 => call(pid, Q::Echo(1), None).await,
                    _ => call("srv", Q::Echo(1), None).await,
                };
                res.set(Some((r, mc::now())));
                stray.set(events().await);
            });
        }
        {
            let (gate, kind) = (gate.clone(), kind.clone());
            proc("ender", async move {
                gate.wait().await;
                match kind.get() {
                    0 => Process::exit(pid, ExitReason::Kill),
                    1 => Process::exit(pid, "sig"),
                    2 => Srv::cast(pid, Q::Boom),
                    _ => Srv::cast(pid, Q::Fail(7)),
                }
            });
        }
        mc::settle();
        mc::explore();
        let begin = mc::now();
        let k = mc::choose(4);
        kind.set(k);
        how.set(mc::choose(2));
        gate.open();
        mc::settle_for(20 * SEC);
        let Some((r, at)) = res.get() else { mc::violation("call-hang", "the call never returned") };
        match &r {
            CallR::Ok(q) => check!(*q == Q::Ans(1), "call-result", "{:?}", q),
            CallR::Down(x) => {
                let want = match k {
                    0 => ExitR::Kill,
                    1 => ExitR::from("sig"),
                    2 => ExitR::from("boom"),
                    _ => ExitR::from("fail7"),
                };
                check!(*x == want || *x == ExitR::from("noproc"), "call-reason", "ServerDown({:?}), expected {:?}", x, want);
            }
            CallR::Timeout => mc::violation("call-hang", "the call timed out although the server was gone"),
        }
        check!(at - begin < SEC, "call-hang", "the call took {} ms", (at - begin) / MS);
        check!(stray.get().is_empty(), "call-stray", "left after the call: {:?}", stray.get());
        no_stray_panics(&[]);
        mc::outcome((k, how.get(), r));
    })
}

/// Every time limit, and none (five seconds): to the millisecond.
fn durations() -> Scenario {
    seq("durations", 60).run(|| {
        let s = Srv::new();
        let pid = start_server(&s, GenServerOptions::new().name("srv"));
        let c = Agent::spawn("client");
        mc::settle();
        mc::explore();
        let i = mc::choose(SPANS.len() + 1);
        let limit = SPANS.get(i).copied();
        let d = limit.unwrap_or(5000);
        let (answered, named) = (mc::choose(2) == 1, mc::choose(2) == 1);
        let out = Shared::new(None);
        let o = out.clone();
        c.post(move || async move {
            let q = if answered { Q::Slow(1, d - 1) } else { Q::Defer(1) };
            let r = if named { call("srv", q, limit).await } else { call(pid, q, limit).await };
            o.set(Some((r, mc::now())));
        });
        let t0 = mc::now();
        let at = if answered { d - 1 } else { d };
        if at > 0 {
            mc::settle_for((at - 1) * MS);
            check!(out.get().is_none(), "call-early", "limit {:?}: {:?} too early", limit, out.get());
        }
        mc::settle_for(2 * MS);
        let want = if answered { CallR::Ok(Q::Ans(1)) } else { CallR::Timeout };
        match out.get() {
            Some((r, t)) => check!(r == want && t >= t0 + at * MS, "call-result", "limit {:?}: {:?} after {} ms, expected {:?} after {}", limit, r, (t - t0) / MS, want, at),
            None => mc::violation("call-late", &format!("limit {:?}: nothing after {} ms", limit, at + 1)),
        }
        signal(pid, ExitReason::Kill);
        mc::settle();
        let left = c.exec(|| async { events().await }).unwrap();
        check!(left.is_empty(), "call-stray", "limit {:?}: the client was sent {:?} at the end of the server", limit, left);
        no_stray_panics(&[]);
        mc::outcome((i, answered, named));
    })
}

/// Every history of calls (immediate, deferred, abandoned), casts, replies and stops.
fn history() -> Scenario {
    let depth = if thorough() { 6 } else { 4 };
    seq("histories", 100).run(move || {
        let s = Srv::new();
        let pid = start_server(&s, GenServerOptions::new());
        let c: Vec<Agent> = vec![Agent::spawn("c0"), Agent::spawn("c1")];
        mc::settle();
        mc::explore();
        let mut log = vec![Cb::Init];
        // (client, number) of the calls to be answered, and who waits.
        let mut deferred: Vec<(usize, u32)> = Vec::new();
        let mut waiting: [Option<u32>; 2] = [None, None];
        let out: Vec<Shared<Vec<CallR>>> = (0..2).map(|_| Shared::new(Vec::new())).collect();
        let mut want: Vec<Vec<CallR>> = vec![Vec::new(), Vec::new()];
        let mut alive = true;
        let mut trail = Vec::new();
        for step in 0..depth {
            let op = mc::choose(9);
            trail.push(op);
            let n = step as u32 + 1;
            match op {
                0..=3 => {
                    // Client i: immediate or deferred call.
                    let i = op % 2;
                    if waiting[i].is_some() {
                        continue;
                    }
                    let q = if op < 2 { Q::Echo(n) } else { Q::Defer(n) };
                    let (o, q2) = (out[i].clone(), q.clone());
                    c[i].post(move || async move {
                        let r = call(pid, q2, Some(1_000)).await;
                        o.push(r);
                    });
                    if !alive {
                        want[i].push(CallR::Down(ExitR::from("noproc")));
                    } else {
                        log.push(Cb::Call(q, c[i].pid));
                        if op < 2 {
                            want[i].push(CallR::Ok(Q::Ans(n)));
                        } else {
                            deferred.push((i, n));
                            waiting[i] = Some(n);
                        }
                    }
                }
                4 => {
                    let got = s.reply_oldest();
                    let w = (!deferred.is_empty()).then(|| deferred.remove(0));
                    check!(got == w.map(|w| w.1), "history-deferred", "after {:?}", trail);
                    if let Some((i, n)) = w {
                        // An answer to an abandoned call changes nothing.
                        if waiting[i] == Some(n) {
                            waiting[i] = None;
                            want[i].push(CallR::Ok(Q::Ans(n)));
                        }
                    }
                }
                5 => {
                    Srv::cast(pid, Q::Note(n));
                    if alive {
                        log.push(Cb::Cast(Q::Note(n)));
                    }
                }
                6 => {
                    mc::settle_for(2 * SEC);
                    for i in 0..2 {
                        if waiting[i].take().is_some() {
                            want[i].push(CallR::Timeout);
                        }
                    }
                }
                _ => {
                    if op == 7 {
                        Srv::cast(pid, Q::Fail(n));
                    } else {
                        signal(pid, ExitReason::Kill);
                    }
                    if alive {
                        alive = false;
                        let r = if op == 7 {
                            log.push(Cb::Cast(Q::Fail(n)));
                            log.push(Cb::Term(ExitR::Custom(format!("fail{}", n))));
                            ExitR::Custom(format!("fail{}", n))
                        } else {
                            ExitR::Kill
                        };
                        for i in 0..2 {
                            if waiting[i].take().is_some() {
                                want[i].push(CallR::Down(r.clone()));
                            }
                        }
                    }
                }
            }
            mc::settle();
            let got: Vec<Vec<CallR>> = out.iter().map(|o| o.get()).collect();
            check!(got == want, "history-call", "after {:?}: {:?}, expected {:?}", trail, got, want);
            check!(s.log() == log, "history-callbacks", "after {:?}: {:?}, expected {:?}", trail, s.log(), log);
        }
        // Nothing of the calls that are over is left, also after the server ends.
        let watched = Process::info(pid).map(|i| i.monitored_by.len()).unwrap_or(0);
        let open = waiting.iter().flatten().count();
        if alive {
            check!(watched == open, "history-monitor", "after {:?}: {} calls are open, {} monitors", trail, open, watched);
        }
        mc::settle_for(2 * SEC);
        signal(pid, ExitReason::Kill);
        mc::settle();
        for (i, c) in c.iter().enumerate() {
            let left = c.exec(|| async { events().await }).unwrap();
            check!(left.is_empty(), "call-stray", "after {:?} and the end of the server: client {} was sent {:?}", trail, i, left);
        }
        no_stray_panics(&[]);
        mc::outcome(trail);
    })
}
