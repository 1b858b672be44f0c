//! C11: a server is started exactly if its init succeeds, and handles its messages one by one in order.

use crate::srv::*;
use crate::util::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![start_result(), same_name(), init_timeout(), early_messages(), restart_name(), durations()]
}

fn exit_of(pid: Pid) -> Shared<Option<ExitR>> {
    let out = Shared::new(None);
    let o = out.clone();
    proc("exit-watcher", async move {
        let _ = Process::monitor(pid);
        if let Message::System(SystemMessage::ProcessDown(_, _, r)) = Process::receive::<M>().await {
            o.set(Some(r.into()));
        }
    });
    out
}

/// Every result of init, with and without link, trap and name.
fn start_result() -> Scenario {
    sc("start-result", (1, 3), 16).run(|| {
        let gate = Gate::new();
        let s0 = Srv::new();
        let (kind, link, traps) = (Shared::new(0usize), Shared::new(false), Shared::new(false));
        let res: Shared<Option<Result<Pid, ExitR>>> = Shared::new(None);
        let log = Shared::new(Vec::new());
        let init_done_first = Shared::new(false);
        let parent = {
            let (gate, s0, kind, link, traps, res, log, first) =
                (gate.clone(), s0.clone(), kind.clone(), link.clone(), traps.clone(), res.clone(), log.clone(), init_done_first.clone());
            proc("parent", async move {
                gate.wait().await;
                if traps.get() {
                    trap();
                }
                let mut s = s0.clone();
                match kind.get() {
                    0 => (),
                    1 => s.init_err = Some(ExitReason::from("bad")),
                    2 => s.init_panic = true,
                    _ => s.init_err = Some(ExitReason::Normal),
                }
                let o = GenServerOptions::new().name("srv");
                let r = if link.get() { s.start_link(o).await } else { s.start(o).await };
                first.set(s0.log() == vec![Cb::Init]);
                res.set(Some(r.map_err(|e| e.into())));
                collect(log).await
            })
        };
        mc::settle();
        mc::explore();
        let (k, l, t) = (mc::choose(4), mc::choose(2) == 1, mc::choose(2) == 1);
        kind.set(k);
        link.set(l);
        traps.set(t);
        gate.open();
        mc::settle();
        let reason = ["", "bad", "boom"].get(k).copied();
        let parent_dies = l && !t && (k == 1 || k == 2);
        match res.get() {
            Some(Ok(p)) => {
                check!(k == 0, "start-ok", "start succeeded although init failed ({})", k);
                check!(init_done_first.get(), "start-early", "start returned before init had run");
                check!(Process::whereis("srv") == Some(p) && Process::alive(p), "start-name", "a started server is not registered");
                check!(log.get().is_empty(), "start-stray", "{:?}", log.get());
            }
            Some(Err(e)) => {
                let want = match k {
                    1 => ExitR::from("bad"),
                    2 => ExitR::from("unknown"),
                    _ => ExitR::Normal,
                };
                check!(k != 0 && e == want, "start-error", "init result {} became {:?}", k, e);
            }
            None => check!(parent_dies, "start-hang", "start did not return ({}, link {}, trap {})", k, l, t),
        }
        check!(Process::alive(parent) != parent_dies, "start-link", "parent alive: {} ({}, link {}, trap {})", Process::alive(parent), k, l, t);
        if k != 0 {
            check!(Process::whereis("srv").is_none(), "start-name", "the name of a failed server is taken");
            check!(s0.log() == vec![Cb::Init], "start-callbacks", "{:?}", s0.log());
            if l && t {
                let ok = log.get().len() == 1 && matches!(&log.get()[0], Ev::Exit(_, r) if *r == reason.map(ExitR::from).unwrap_or(ExitR::Normal));
                check!(ok, "start-link", "the trapping parent received {:?}", log.get());
            }
        }
        no_stray_panics(&[]);
        mc::outcome((k, l, t, res.get().is_some()));
    })
}

/// Two servers start under one name: one runs, the other fails without running.
fn same_name() -> Scenario {
    sc("same-name", (2, 4), 2).run(|| {
        let gate = Gate::new();
        let s: Vec<Srv> = (0..2).map(|_| Srv::new()).collect();
        let res: Vec<Shared<Option<Result<Pid, ExitR>>>> = (0..2).map(|_| Shared::new(None)).collect();
        let name = Shared::new("srv");
        for i in 0..2 {
            let (gate, s, res, name) = (gate.clone(), s[i].clone(), res[i].clone(), name.clone());
            proc("starter", async move {
                gate.wait().await;
                let r = s.start(GenServerOptions::new().name(name.get())).await;
                res.set(Some(r.map_err(|e| e.into())));
            });
        }
        mc::settle();
        mc::explore();
        name.set(["srv", " srv "][mc::choose(2)]);
        gate.open();
        mc::settle();
        let r: Vec<Result<Pid, ExitR>> = res.iter().map(|r| r.get().unwrap_or_else(|| mc::violation("start-hang", ""))).collect();
        let win = usize::from(r[0].is_err());
        check!(r[win].is_ok() && r[1 - win] == Err(ExitR::from("already_started")), "start-unique", "{:?}", r);
        check!(Process::whereis(name.get()) == r[win].clone().ok(), "start-name", "the name leads elsewhere");
        check!(s[1 - win].log().is_empty(), "start-unique", "the losing server ran {:?}", s[1 - win].log());
        no_stray_panics(&[]);
        mc::outcome(win);
    })
}

/// init around its time limit.
fn init_timeout() -> Scenario {
    sc("init-timeout", (2, 4), 3).timers(100).run(|| {
        let gate = Gate::new();
        let s0 = Srv::new();
        let when = Shared::new(0u64);
        let res: Shared<Option<Result<Pid, ExitR>>> = Shared::new(None);
        {
            let (gate, s0, when, res) = (gate.clone(), s0.clone(), when.clone(), res.clone());
            proc("parent", async move {
                gate.wait().await;
                let mut s = s0;
                s.init_ms = when.get();
                let r = s.start(GenServerOptions::new().name("srv").timeout(ms(10))).await;
                res.set(Some(r.map_err(|e| e.into())));
            });
        }
        mc::settle();
        mc::explore();
        let w = [5, 10, 15][mc::choose(3)];
        when.set(w);
        gate.open();
        mc::settle_for(10 * SEC);
        let Some(r) = res.get() else { mc::violation("start-hang", "start did not return") };
        match &r {
            Ok(p) => check!(Process::whereis("srv") == Some(*p) && Process::alive(*p), "start-name", "not registered"),
            Err(e) => {
                check!(*e == ExitR::from("timeout"), "start-error", "{:?}", e);
                check!(Process::whereis("srv").is_none(), "start-name", "the name is still taken");
                check!(Process::list().len() == 0, "start-leak", "{} processes left", Process::list().len());
            }
        }
        check!(s0.log() == vec![Cb::Init], "start-callbacks", "{:?}", s0.log());
        no_stray_panics(&[]);
        mc::outcome((w, r.is_ok()));
    })
}

/// Every limit for init, and none; a linked starter is told by its link as well.
fn durations() -> Scenario {
    seq("durations", 60).run(|| {
        let s0 = Srv::new();
        mc::settle();
        mc::explore();
        let i = mc::choose(SPANS.len() + 1);
        let limit = SPANS.get(i).copied();
        let d = limit.unwrap_or(90_000_000);
        let (late, how) = (mc::choose(2) == 1, mc::choose(3));
        let parent = Agent::spawn("parent");
        let res: Shared<Option<Result<Pid, ExitR>>> = Shared::new(None);
        let (r2, mut s) = (res.clone(), s0.clone());
        s.init_ms = if late { d + 1 } else { d - 1 };
        parent.post(move || async move {
            if how == 2 {
                trap();
            }
            let mut o = GenServerOptions::new().name(" srv ");
            if let Some(l) = limit {
                o = o.timeout(ms(l));
            }
            let r = if how > 0 { s.start_link(o).await } else { s.start(o).await };
            r2.set(Some(r.map_err(|e| e.into())));
        });
        let fails = late && limit.is_some();
        let at = if fails { d } else { s0_at(late, d) };
        if at > 0 {
            mc::settle_for((at - 1) * MS);
            check!(res.get().is_none(), "start-early", "limit {:?}, late {}: {:?}", limit, late, res.get());
            mc::settle_for(MS);
        }
        mc::settle();
        match (fails, how) {
            (false, _) => {
                let Some(Ok(p)) = res.get() else { mc::violation("start-late", &format!("limit {:?}, late {}: {:?}", limit, late, res.get())) };
                mc::settle_for(100_000 * SEC);
                check!(Process::whereis(" srv ") == Some(p) && Process::alive(p) && Process::alive(parent.pid), "start-name", "limit {:?}: {:?}", limit, Process::whereis(" srv "));
            }
            (true, 1) => check!(!Process::alive(parent.pid), "start-link", "limit {:?}: the linked starter still runs: {:?}", limit, res.get()),
            _ => {
                check!(res.get() == Some(Err(ExitR::from("timeout"))), "start-error", "limit {:?}: {:?}", limit, res.get());
                let e = parent.exec(|| events()).unwrap();
                let ok = if how == 2 { matches!(&e[..], [Ev::Exit(_, r)] if *r == ExitR::from("timeout")) } else { e.is_empty() };
                check!(ok, "start-link", "limit {:?}, way {}: the starter received {:?}", limit, how, e);
            }
        }
        if fails {
            check!(Process::whereis(" srv ").is_none(), "start-name", "the name is still taken");
        }
        check!(s0.log() == vec![Cb::Init], "start-callbacks", "{:?}", s0.log());
        no_stray_panics(&[]);
        mc::outcome((i, late, how));
    })
}

/// How long an init without limit takes.
fn s0_at(late: bool, d: u64) -> u64 {
    if late {
        d + 1
    } else {
        d - 1
    }
}

/// Messages from two senders, some sent before init has finished: handled one by one, in order.
fn early_messages() -> Scenario {
    sc("early-messages", (2, 3), 4).run(|| {
        let gate = Gate::new();
        let mut s = Srv::new();
        s.init_ms = 5;
        let log = s.clone();
        {
            let s = s.clone();
            let gate = gate.clone();
            proc("starter", async move {
                gate.wait().await;
                let _ = s.start(GenServerOptions::new().name("srv")).await;
                Srv::cast("srv", Q::Note(1));
                Srv::cast("srv", Q::Slow(2, 1));
                Srv::cast("srv", Q::Note(3));
            });
        }
        let (l2, g2) = (s.clone(), gate.clone());
        let sent = Shared::new(false);
        let sent2 = sent.clone();
        proc("early", async move {
            g2.wait().await;
            let _ = l2;
            for _ in 0..20 {
                if Process::whereis("srv").is_some() {
                    sent2.set(true);
                    break;
                }
                tokio::task::yield_now().await;
            }
            if sent2.get() {
                Srv::cast("srv", Q::Note(11));
                Process::sleep(ms(5)).await;
                Srv::cast("srv", Q::Slow(12, 1));
                Srv::cast("srv", Q::Note(13));
            }
        });
        mc::settle();
        mc::explore();
        gate.open();
        mc::settle_for(SEC);
        let l = log.log();
        check!(l.first() == Some(&Cb::Init), "init-first", "{:?}", l);
        let ns: Vec<u32> = l
            .iter()
            .skip(1)
            .map(|c| match c {
                Cb::Cast(Q::Note(n)) | Cb::Cast(Q::Slow(n, _)) => *n,
                c => mc::violation("server-order", &format!("{:?}", c)),
            })
            .collect();
        let a: Vec<u32> = ns.iter().copied().filter(|n| *n < 10).collect();
        let b: Vec<u32> = ns.iter().copied().filter(|n| *n > 10).collect();
        check!(a == vec![1, 2, 3], "server-order", "{:?}", ns);
        check!(b == if sent.get() { vec![11, 12, 13] } else { vec![] }, "server-order", "{:?}", ns);
        no_stray_panics(&[]);
        mc::outcome(ns);
    })
}

/// Stopping and starting again under the same name at once.
fn restart_name() -> Scenario {
    sc("restart-name", (2, 4), 3).run(|| {
        let gate = Gate::new();
        let s = Srv::new();
        let pid = start_server(&s, GenServerOptions::new().name("srv"));
        let n = Srv::new();
        let res: Shared<Option<(bool, Result<Pid, ExitR>)>> = Shared::new(None);
        let how = Shared::new(0usize);
        let ex = exit_of(pid);
        {
            let (gate, n, res, how) = (gate.clone(), n.clone(), res.clone(), how.clone());
            proc("restarter", async move {
                gate.wait().await;
                let ok = match how.get() {
                    0 => Srv::stop(pid, ExitReason::Normal, None).await.is_ok(),
                    1 => Srv::stop("srv", ExitReason::from("again"), None).await.is_ok(),
                    _ => {
                        let _ = Process::monitor(pid);
                        Process::exit(pid, ExitReason::Kill);
                        let _ = Process::receive::<M>().await;
                        true
                    }
                };
                let r = n.start(GenServerOptions::new().name("srv")).await;
                res.set(Some((ok, r.map_err(|e| e.into()))));
            });
        }
        mc::settle();
        mc::explore();
        let h = mc::choose(3);
        how.set(h);
        gate.open();
        mc::settle();
        let Some((ok, r)) = res.get() else { mc::violation("start-hang", "") };
        check!(ok, "stop-result", "stop failed");
        check!(r.is_ok() && Process::whereis("srv") == r.clone().ok(), "start-name", "the name was not free after the server had ended: {:?}", r);
        let want = [ExitR::Normal, ExitR::from("again"), ExitR::Kill][h].clone();
        check!(ex.get() == Some(want), "exit-reason", "{:?}", ex.get());
        check!(s.terms().len() == usize::from(h < 2), "terminate", "terminate ran {} times", s.terms().len());
        no_stray_panics(&[]);
        mc::outcome(h);
    })
}
