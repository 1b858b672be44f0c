//! C12: a server terminates once, with the reason that ended it, and stop reports how it ended.

use crate::srv::*;
use crate::util::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![one_end(), two_ends(), stop_timeout(), parent_exit(), durations(), late_reply()]
}

fn watch(pid: Pid) -> Shared<Vec<Ev>> {
    let log = Shared::new(Vec::new());
    let l = log.clone();
    proc("watcher", async move {
        let _ = Process::monitor(pid);
        collect(l).await
    });
    mc::settle();
    log
}

fn end(how: usize, pid: Pid) {
    match how {
        0 => Srv::cast(pid, Q::Fail(1)),
        1 => Srv::cast(pid, Q::Boom),
        2 => Process::exit(pid, "sig"),
        3 => Process::exit(pid, ExitReason::Kill),
        _ => Process::exit(pid, ExitReason::Normal),
    }
}

/// One cause at a time: callbacks that stop or panic, stop with several reasons, signals; trap or not.
fn one_end() -> Scenario {
    sc("one-cause", (1, 3), 18).run(|| {
        let gate = Gate::new();
        let pids: Vec<(Srv, Pid, Shared<Vec<Ev>>)> = [false, true]
            .into_iter()
            .map(|t| {
                let s = if t { Srv::new().trapping() } else { Srv::new() };
                let pid = start_server(&s, GenServerOptions::new());
                let w = watch(pid);
                (s, pid, w)
            })
            .collect();
        let how = Shared::new((0usize, 0usize));
        let res: Shared<Option<Result<(), ExitR>>> = Shared::new(None);
        {
            let (gate, how, res) = (gate.clone(), how.clone(), res.clone());
            let p: Vec<Pid> = pids.iter().map(|p| p.1).collect();
            proc("client", async move {
                gate.wait().await;
                let (h, t) = how.get();
                let pid = p[t];
                match h {
                    0..=4 => end(h, pid),
                    5..=7 => {
                        let r = match h {
                            5 => ExitReason::Normal,
                            6 => ExitReason::from("stop"),
                            _ => ExitReason::Kill,
                        };
                        res.set(Some(Srv::stop(pid, r, None).await.map_err(|e| e.into())));
                    }
                    8 => {
                        let r = call(pid, Q::Fail(2), None).await;
                        check!(r == CallR::Down(ExitR::from("fail2")), "call-fail", "{:?}", r);
                    }
                    _ => Process::send(pid, M::Go),
                }
            });
        }
        mc::settle();
        mc::explore();
        let (h, t) = (mc::choose(9), mc::choose(2));
        how.set((h, t));
        gate.open();
        mc::settle();
        let (s, pid, w) = &pids[t];
        let traps = t == 1;
        // (end reason or still alive, terminate ran)
        let want: Option<(ExitR, bool)> = match h {
            0 => Some((ExitR::from("fail1"), true)),
            1 => Some((ExitR::from("boom"), false)),
            2 => (!traps).then_some((ExitR::from("sig"), false)),
            3 => Some((ExitR::Kill, false)),
            4 => None,
            5 => Some((ExitR::Normal, true)),
            6 => Some((ExitR::from("stop"), true)),
            7 => Some((ExitR::Kill, true)),
            8 => Some((ExitR::from("fail2"), true)),
            _ => None,
        };
        let wev: Vec<ExitR> = w
            .get()
            .into_iter()
            .map(|e| match e {
                Ev::Down(_, _, r) => r,
                e => mc::violation("watch", &format!("{:?}", e)),
            })
            .collect();
        match &want {
            Some((r, term)) => {
                check!(wev == vec![r.clone()], "end-reason", "cause {} trap {}: the monitor saw {:?}, expected {:?}", h, traps, wev, r);
                check!(s.terms() == if *term { vec![r.clone()] } else { vec![] }, "terminate", "cause {} trap {}: terminate ran with {:?}", h, traps, s.terms());
                check!(!Process::alive(*pid), "alive", "still alive");
            }
            None => {
                check!(wev.is_empty() && Process::alive(*pid) && s.terms().is_empty(), "end-reason", "cause {} trap {}: ended {:?}", h, traps, wev);
                if traps {
                    check!(s.log().iter().any(|c| matches!(c, Cb::Exit(..))), "exit-info", "the trapped signal was not handed to the server: {:?}", s.log());
                }
            }
        }
        if (5..=7).contains(&h) {
            check!(res.get() == Some(Ok(())), "stop-result", "stop returned {:?}", res.get());
        }
        let (so, po, wo) = &pids[1 - t];
        check!(Process::alive(*po) && wo.get().is_empty() && so.log() == vec![Cb::Init], "bystander", "the other server was affected");
        no_stray_panics(&[]);
        mc::outcome((h, t));
    })
}

/// stop races with another end of the server, or with another stop.
fn two_ends() -> Scenario {
    sc("stop-vs-end", (2, 4), 8).run(|| {
        let gate = Gate::new();
        let mut s = Srv::new();
        s.slow_term = true;
        let pid = start_server(&s, GenServerOptions::new());
        let w = watch(pid);
        let kind = Shared::new(0usize);
        let res: Vec<Shared<Option<Result<(), ExitR>>>> = (0..2).map(|_| Shared::new(None)).collect();
        {
            let (gate, res) = (gate.clone(), res[0].clone());
            proc("stopper", async move {
                gate.wait().await;
                res.set(Some(Srv::stop(pid, ExitReason::from("one"), None).await.map_err(|e| e.into())));
            });
        }
        {
            let (gate, res, kind) = (gate.clone(), res[1].clone(), kind.clone());
            proc("other", async move {
                gate.wait().await;
                match kind.get() {
                    k @ 0..=3 => end(k, pid),
                    _ => res.set(Some(Srv::stop(pid, ExitReason::from("two"), None).await.map_err(|e| e.into()))),
                }
            });
        }
        mc::settle();
        mc::explore();
        let k = mc::choose(5);
        kind.set(k);
        gate.open();
        mc::settle_for(10 * SEC);
        let ends: Vec<ExitR> = w.get().into_iter().filter_map(|e| if let Ev::Down(_, _, r) = e { Some(r) } else { None }).collect();
        check!(ends.len() == 1, "end-once", "{:?}", w.get());
        let other = [ExitR::from("fail1"), ExitR::from("boom"), ExitR::from("sig"), ExitR::Kill, ExitR::from("two")][k].clone();
        let end = &ends[0];
        check!(*end == ExitR::from("one") || *end == other, "end-reason", "{:?} of cause {}", end, k);
        check!(s.terms().len() <= 1, "terminate", "terminate ran {} times", s.terms().len());
        for (i, own) in [(0, ExitR::from("one")), (1, ExitR::from("two"))] {
            if i == 1 && k < 4 {
                continue;
            }
            let Some(r) = res[i].get() else { mc::violation("stop-hang", "stop did not return") };
            match r {
                Ok(()) => check!(*end == own, "stop-result", "stop succeeded, but the server ended with {:?}", end),
                Err(e) => check!(e == ExitR::from("noproc") || (e == *end && e != own), "stop-result", "stop returned {:?}, the server ended with {:?}", e, end),
            }
        }
        match s.terms().first() {
            Some(t) => {
                let ok = t == end || k == 2 || k == 3;
                check!(ok, "terminate-reason", "terminate got {:?}, the server ended with {:?}", t, end);
            }
            None => check!(*end == other && (1..=3).contains(&k), "terminate", "terminate did not run for {:?}", end),
        }
        no_stray_panics(&[]);
        mc::outcome((k, end.clone(), s.terms(), res[0].get()));
    })
}

/// stop with a time limit on a busy server.
fn stop_timeout() -> Scenario {
    sc("stop-timeout", (2, 4), 2).timers(100).run(|| {
        let gate = Gate::new();
        let s = Srv::new();
        let pid = start_server(&s, GenServerOptions::new());
        let when = Shared::new(0u64);
        let res: Shared<Option<Result<(), ExitR>>> = Shared::new(None);
        let stray = Shared::new(Vec::new());
        {
            let (gate, res, stray, when) = (gate.clone(), res.clone(), stray.clone(), when.clone());
            proc("stopper", async move {
                gate.wait().await;
                Srv::cast(pid, Q::Slow(0, when.get()));
                let t = mc::now() / MS;
                let r = Srv::stop(pid, ExitReason::Normal, Some(ms(10))).await.map_err(|e| e.into());
                if r.is_err() {
                    check!(mc::now() / MS >= t + 10, "stop-early", "timed out too early");
                }
                res.set(Some(r));
                collect(stray).await
            });
        }
        mc::settle();
        mc::explore();
        let w = [5, 10, 15][mc::choose(3)];
        when.set(w);
        gate.open();
        mc::settle_for(10 * SEC);
        let Some(r) = res.get() else { mc::violation("stop-hang", "stop did not return") };
        check!(r.is_ok() || r == Err(ExitR::from("timeout")), "stop-result", "{:?}", r);
        check!(!Process::alive(pid) && s.terms() == vec![ExitR::Normal], "terminate", "{:?}", s.terms());
        check!(stray.get().is_empty(), "stop-stray", "after stop: {:?}", stray.get());
        no_stray_panics(&[]);
        mc::outcome((w, r));
    })
}

/// Every time limit, and none: to the millisecond.
fn durations() -> Scenario {
    seq("durations", 25).run(|| {
        let s = Srv::new();
        let pid = start_server(&s, GenServerOptions::new().name("srv"));
        let (c, busy) = (Agent::spawn("client"), Agent::spawn("busy"));
        mc::settle();
        mc::explore();
        let i = mc::choose(SPANS.len() + 1);
        let limit = SPANS.get(i).copied();
        let d = limit.unwrap_or(200_000_000);
        let (late, named) = (mc::choose(2) == 1, mc::choose(2) == 1);
        // The server is busy until just before, or just after.
        let work = if late { d + 1 } else { d - 1 };
        busy.call(move || Srv::cast(pid, Q::Slow(1, work)));
        mc::settle();
        let out = Shared::new(None);
        let o = out.clone();
        c.post(move || async move {
            let r = if named { Srv::stop("srv", ExitReason::Normal, limit.map(ms)).await } else { Srv::stop(pid, ExitReason::Normal, limit.map(ms)).await };
            o.set(Some(r.map_err(ExitR::from)));
        });
        let over = late && limit.is_some();
        let at = if over { d } else { work };
        if at > 0 {
            mc::settle_for((at - 1) * MS);
            check!(out.get().is_none(), "stop-early", "limit {:?}, busy for {} ms: {:?} too early", limit, work, out.get());
            mc::settle_for(MS);
        }
        mc::settle();
        let want = if over { Err(ExitR::from("timeout")) } else { Ok(()) };
        check!(out.get() == Some(want.clone()), "stop-result", "limit {:?}, busy for {} ms: {:?}, expected {:?}", limit, work, out.get(), want);
        mc::settle_for(2 * MS);
        check!(!Process::alive(pid) && s.terms() == vec![ExitR::Normal], "terminate", "{:?}", s.terms());
        no_stray_panics(&[]);
        mc::outcome((i, late, named));
    })
}

/// The late reply to a call the server gave up is information like any other, also if it stops the server.
fn late_reply() -> Scenario {
    seq("late-reply", 8).run(|| {
        let back = Srv::new();
        let target = start_server(&back, GenServerOptions::new());
        mc::settle();
        mc::explore();
        let (n, fail, remote) = (mc::choose(2), mc::choose(2) == 1, mc::choose(2) == 1);
        let log = Shared::new(Vec::new());
        let f = Front { target, fail, log: log.clone() };
        let pid: Shared<Option<Pid>> = Shared::new(None);
        let (p2, f) = (pid.clone(), AssertSend(f));
        proc("starter", async move { p2.set(f.0.start(GenServerOptions::new()).await.ok()) });
        mc::settle();
        let pid = pid.get().unwrap();
        let w = watch(pid);
        for _ in 0..=n {
            Front::cast(pid, Q::Note(1));
        }
        mc::settle_for(5 * SEC);
        let who = if remote { back.deferred.with(|d| d.drain(..).collect::<Vec<_>>()) } else { vec![] };
        if remote {
            // Answered now, after the time.
            for (f, n) in who {
                Srv::reply(f, Q::Ans(n));
            }
        } else {
            back.reply_oldest();
        }
        mc::settle();
        let l = log.get();
        let terms: Vec<ExitR> = l.iter().filter_map(|c| if let Cb::Term(r) = c { Some(r.clone()) } else { None }).collect();
        let infos = l.iter().filter(|c| matches!(c, Cb::Info(Q::Ans(1)))).count();
        let ends: Vec<ExitR> = w.get().into_iter().filter_map(|e| if let Ev::Down(_, _, r) = e { Some(r) } else { None }).collect();
        if infos > 0 && fail {
            check!(terms == vec![ExitR::from("late")] && ends == terms && infos == 1, "terminate", "a late reply made the server stop: {:?}, monitor {:?}", l, ends);
        } else {
            check!(terms.is_empty() && ends.is_empty() && Process::alive(pid), "terminate", "{:?}, monitor {:?}", l, ends);
        }
        no_stray_panics(&[]);
        mc::outcome((n, fail, remote, infos));
    })
}

/// A server that calls another one and does not wait long.
struct Front {
    target: Pid,
    fail: bool,
    log: Shared<Vec<Cb>>,
}

impl GenServer for Front {
    type Message = Q;
    async fn init(&mut self) -> Result<(), ExitReason> {
        Ok(())
    }
    async fn terminate(&mut self, reason: ExitReason) {
        self.log.push(Cb::Term(reason.into()));
    }
    async fn handle_cast(&mut self, _: Q) -> Result<(), ExitReason> {
        let r = AssertSend(call(self.target, Q::Defer(1), Some(10))).await;
        check!(r == CallR::Timeout, "call-result", "{:?}", r);
        Ok(())
    }
    async fn handle_info(&mut self, m: Message<Q>) -> Result<(), ExitReason> {
        if let Message::User(q) = m {
            self.log.push(Cb::Info(q));
            if self.fail {
                return Err(ExitReason::from("late"));
            }
        }
        Ok(())
    }
}

/// The linked parent ends: a server that traps exits terminates, any other just ends.
fn parent_exit() -> Scenario {
    sc("parent-exit", (2, 4), 6).run(|| {
        let gate = Gate::new();
        let mut both = Vec::new();
        for t in [false, true] {
            let s = if t { Srv::new().trapping() } else { Srv::new() };
            let out: Shared<Option<Pid>> = Shared::new(None);
            let go = Shared::new(3usize);
            let parent = {
                let (s, out, gate, go) = (s.clone(), out.clone(), gate.clone(), go.clone());
                proc("parent", async move {
                    out.set(s.start_link(GenServerOptions::new()).await.ok());
                    gate.wait().await;
                    match go.get() {
                        0 => (),
                        1 => panic!("boom"),
                        _ => std::future::pending().await,
                    }
                })
            };
            mc::settle();
            let pid = out.get().unwrap();
            both.push((s, pid, parent, go, watch(pid)));
        }
        mc::explore();
        let (h, t) = (mc::choose(3), mc::choose(2));
        let busy = mc::choose(2) == 1;
        let (s, pid, parent, go, w) = &both[t];
        go.set(h);
        if busy {
            Srv::cast(*pid, Q::Slow(1, 5));
        }
        gate.open();
        if h == 2 {
            signal(*parent, ExitReason::Kill);
        }
        mc::settle_for(10 * SEC);
        let reason = [ExitR::Normal, ExitR::from("boom"), ExitR::Kill][h].clone();
        let ends: Vec<ExitR> = w.get().into_iter().filter_map(|e| if let Ev::Down(_, _, r) = e { Some(r) } else { None }).collect();
        if t == 1 {
            check!(ends == vec![reason.clone()], "parent-exit", "parent end {}: the server ended with {:?}", h, ends);
            check!(s.terms() == vec![reason.clone()], "terminate", "{:?}", s.terms());
        } else {
            check!(s.terms().is_empty(), "terminate", "{:?}", s.terms());
            check!(ends == if h == 0 { vec![] } else { vec![reason.clone()] }, "parent-exit", "parent end {}: the server ended with {:?}", h, ends);
        }
        no_stray_panics(&[]);
        mc::outcome((h, t, busy));
    })
}
