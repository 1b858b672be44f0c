//! C28: monitors and links across nodes report the end of the process or of the connection, exactly once.

use crate::dist::*;
use crate::srv::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![matrix(), race(), removed(), forgets(), named(), again(), links(), unlinked(), calls(), install_loss(), second_try()]
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum W {
    Pid,
    Name,
    Alias,
    NameAlias,
    Link,
}
const ALL: [W; 5] = [W::Pid, W::Name, W::Alias, W::NameAlias, W::Link];

impl W {
    fn named(self) -> bool {
        matches!(self, W::Name | W::NameAlias)
    }
}

/// Watches the process `rp` (registered as "t") of node 1 from the current process.
fn watch(w: W, rp: Pid) -> Option<Reference> {
    match w {
        W::Pid => Some(Process::monitor(rp)),
        W::Name => Some(Process::monitor(("t", node_of(1)))),
        W::Alias => Some(Process::monitor_alias(rp, false)),
        W::NameAlias => Some(Process::monitor_alias(("t", node_of(1)), false)),
        W::Link => {
            Process::link(rp);
            None
        }
    }
}

/// The reasons that were reported.
fn fired(w: W, rp: Pid, r: Option<Reference>, evs: &[Ev]) -> Vec<ExitR> {
    evs.iter()
        .map(|e| match e {
            Ev::Down(d, x, e) if Some(*x) == r => {
                let fits = match d {
                    DestR::Pid(p) => !w.named() && *p == rp,
                    DestR::Name(n, local) => w.named() && n == "t" && !local,
                    _ => false,
                };
                check!(fits, "wrong-dest", "{:?} was monitored by {:?}, reported as {:?}", rp, w, d);
                e.clone()
            }
            Ev::Exit(p, e) if w == W::Link && *p == rp => e.clone(),
            e => mc::violation("alien-message", &format!("{:?} while watching {:?} by {:?}", e, rp, w)),
        })
        .collect()
}

fn watchers(pid: Pid) -> Vec<Pid> {
    on(1, || Process::info(pid)).map(|i| i.monitored_by).unwrap_or_default()
}

/// Two nodes with a process each, "t" on the second one. Not necessarily connected.
fn scene(conn: bool) -> (Rem, Rem, Pid) {
    up(0);
    up(1);
    let (a, b) = (Rem::spawn(0, "a"), Rem::spawn(1, "b"));
    let p = b.pid;
    b.call(move || {
        trap();
        Process::register(p, "t").unwrap()
    });
    a.call(|| trap());
    mc::settle();
    if conn {
        connect(&a, 1);
    }
    let rp = b.pid_on(0);
    (a, b, rp)
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum F {
    Nothing,
    Return,
    Panic,
    Kill,
    Reset,
    Disconnect,
    Forget,
    FarDisconnect,
    FarForget,
    FarStop,
    Stop,
    Partition,
    NodeKilled,
    FarNodeKilled,
}
const FATES: [F; 14] = [
    F::Nothing,
    F::Return,
    F::Panic,
    F::Kill,
    F::Reset,
    F::Disconnect,
    F::Forget,
    F::FarDisconnect,
    F::FarForget,
    F::FarStop,
    F::Stop,
    F::Partition,
    F::NodeKilled,
    F::FarNodeKilled,
];

/// What happens, and what is to be reported.
fn fate(f: F, a: &Rem, b: &Rem) -> Vec<ExitR> {
    let far = || Rem::spawn(1, "far");
    let lost = vec![ExitR::from("noconnection")];
    match f {
        F::Nothing => vec![],
        F::Return => {
            b.a.finish();
            vec![ExitR::Normal]
        }
        F::Panic => {
            b.a.panic();
            vec![ExitR::from("boom")]
        }
        F::Kill => {
            let p = b.pid;
            proc_on(1, "killer", async move { Process::exit(p, ExitReason::Kill) });
            vec![ExitR::Kill]
        }
        F::Reset => {
            mcnet::reset(mcnet::connections() - 1);
            lost
        }
        F::Disconnect => {
            a.post(|| async { Node::disconnect(node_of(1)) });
            lost
        }
        F::Forget => {
            a.post(|| async { Node::forget(node_of(1)) });
            lost
        }
        F::FarDisconnect => {
            far().post(|| async { Node::disconnect(node_of(0)) });
            lost
        }
        F::FarForget => {
            far().post(|| async { Node::forget(node_of(0)) });
            lost
        }
        F::FarStop => {
            far().post(|| async { Node::stop() });
            lost
        }
        F::Stop => {
            a.post(|| async { Node::stop() });
            lost
        }
        F::Partition => {
            mcnet::partition(mcnet::connections() - 1);
            lost
        }
        F::NodeKilled => {
            kill_node(0);
            lost
        }
        F::FarNodeKilled => {
            kill_node(1);
            lost
        }
    }
}

/// Every way to watch, with every fate, with and without a connection before, also of a process
/// that is gone.
fn matrix() -> Scenario {
    sc("matrix", (0, 1), 100).run(|| {
        mc::settle();
        mc::explore();
        mc::setup_begin();
        let (w, f) = (ALL[mc::choose(5)], FATES[mc::choose(FATES.len())]);
        let pre = mc::choose(2) == 1;
        let gone = mc::choose(2) == 1;
        let (a, b, rp) = scene(pre);
        if gone {
            b.a.finish();
            mc::settle();
        }
        mc::setup_end();
        let r = a.call(move || watch(w, rp)).unwrap();
        mc::settle();
        check!(connected(0, 1) && connected(1, 0), "not-connected", "{:?} {:?}", state(0, 1), state(1, 0));
        let early = fired(w, rp, r, &a.events());
        let want = if gone { vec![ExitR::from("noproc")] } else { vec![] };
        check!(early == want, "early", "watching {:?}: {:?} instead of {:?}", w, early, want);
        if !gone {
            let i = on(1, || Process::info(b.pid)).unwrap();
            let n = if w == W::Link { i.links.len() } else { i.monitored_by.len() };
            check!(n == 1, "not-installed", "{:?}", w);
        }
        if f == F::Kill && gone {
            mc::outcome(0);
            return;
        }
        let want = fate(f, &a, &b);
        let begin = mc::now();
        mc::settle();
        if f == F::Partition {
            mc::settle_for(46 * SEC);
        }
        let _ = begin;
        let late = fired(w, rp, r, &a.events());
        let want = if gone { vec![] } else { want };
        check!(late == want, "report", "watched by {:?}, {:?}: reported {:?} instead of {:?}", w, f, late, want);
        // The other side forgets the watch, or learns of the end of the link.
        if !gone && b.alive() {
            if f != F::Nothing {
                mc::settle_for(50 * SEC);
                check!(watchers(b.pid).is_empty(), "leak", "{:?}: still monitored by {:?}", f, watchers(b.pid));
                let other = b.events();
                let ok = if w == W::Link {
                    matches!(&other[..], [Ev::Exit(p, e)] if p.is_remote() && *e == ExitR::from("noconnection"))
                } else {
                    other.is_empty()
                };
                check!(ok, "other-side", "watched by {:?}, {:?}: {:?}", w, f, other);
            } else {
                check!(b.events().is_empty(), "other-side", "");
            }
        }
        // No second report.
        mc::settle_for(100 * SEC);
        check!(a.events().is_empty(), "twice", "watched by {:?}, {:?}", w, f);
        quiet_conn();
        mc::outcome((w, f, pre, gone));
    })
}

/// The process ends while the connection is lost: one report, of either.
fn race() -> Scenario {
    sc("end-and-loss", (1, 2), 10).run(|| {
        mc::settle();
        mc::explore();
        mc::setup_begin();
        let w = ALL[mc::choose(5)];
        let f = [F::Reset, F::Disconnect, F::FarDisconnect, F::FarStop][mc::choose(4)];
        let (a, b, rp) = scene(true);
        let r = a.call(move || watch(w, rp)).unwrap();
        mc::settle();
        mc::setup_end();
        b.a.panic();
        fate(f, &a, &b);
        mc::settle();
        mc::settle_for(50 * SEC);
        let got = fired(w, rp, r, &a.events());
        let ok = got == [ExitR::from("boom")] || got == [ExitR::from("noconnection")];
        check!(ok, "report", "watched by {:?}, {:?} and end: reported {:?}", w, f, got);
        quiet_conn();
        mc::outcome((w, f, got));
    })
}

/// After demonitor nothing is reported any more, and the other node is told.
fn removed() -> Scenario {
    sc("demonitor", (1, 2), 8).run(|| {
        mc::settle();
        mc::explore();
        mc::setup_begin();
        let w = ALL[mc::choose(4)];
        let how = mc::choose(3);
        let resolved = mc::choose(2) == 1;
        let (a, b, rp) = scene(true);
        let r = a.call(move || watch(w, rp)).unwrap().unwrap();
        mc::settle();
        if resolved {
            // The process learns of the name's owner when it looks at its mailbox.
            check!(a.events().is_empty(), "early", "");
        }
        mc::setup_end();
        match how {
            0 => b.a.panic(),
            1 => mcnet::reset(mcnet::connections() - 1),
            _ => {}
        }
        let got = a
            .exec(move || async move {
                Process::demonitor(r);
                tokio::task::yield_now().await;
                events().await
            })
            .unwrap();
        check!(got.is_empty(), "after-demonitor", "watched by {:?}: {:?}", w, got);
        // Its alias is gone as well.
        a.call(move || Process::send(r, M::N(1)));
        mc::settle();
        mc::settle_for(SEC);
        let got = a.events();
        check!(got.is_empty(), "after-demonitor", "watched by {:?}: {:?}", w, got);
        if how == 2 {
            check!(watchers(b.pid).is_empty(), "leak", "watched by {:?}: still monitored by {:?}", w, watchers(b.pid));
            check!(connected(0, 1) && connected(1, 0), "connection-lost", "");
        }
        quiet_conn();
        mc::outcome((w, how, resolved));
    })
}

/// However early a monitor is removed, or its owner ends: the other node keeps nothing of it, and the other monitors.
fn forgets() -> Scenario {
    sc("forgets", (1, 2), 16).run(|| {
        mc::settle();
        mc::explore();
        mc::setup_begin();
        let w = ALL[mc::choose(4)];
        let when = mc::choose(4);
        let ends = mc::choose(3);
        let (a, b, rp) = scene(when < 3);
        let c = Rem::spawn(0, "c");
        if when < 3 {
            c.call(move || watch(w, rp));
        }
        let r = (when < 2).then(|| a.call(move || watch(w, rp)).unwrap().unwrap());
        mc::settle();
        if when == 1 {
            check!(a.events().is_empty(), "early", "");
        }
        mc::setup_end();
        a.post(move || async move {
            let r = r.unwrap_or_else(|| watch(w, rp).unwrap());
            match ends {
                0 => Process::demonitor(r),
                1 => Process::exit(Process::current(), ExitReason::Kill),
                _ => panic!("ended"),
            }
        });
        mc::settle();
        mc::settle_for(SEC);
        let left = watchers(b.pid);
        check!(left.len() == usize::from(when < 3), "leak", "watched by {:?}, {} at {}: still monitored by {:?}", w, ends, when, left);
        if when < 3 {
            b.a.panic();
            mc::settle();
            let got = c.events();
            check!(got.len() == 1, "other", "watched by {:?}, {} at {}: {:?}", w, ends, when, got);
        }
        if ends == 0 {
            let got = a.events();
            check!(got.is_empty(), "after-demonitor", "watched by {:?}: {:?}", w, got);
        }
        mc::outcome((w, when, ends));
    })
}

/// A monitor by name is installed while the owner of the name ends, or gives it up.
fn named() -> Scenario {
    sc("named-race", (2, 3), 3).run(|| {
        mc::settle();
        mc::explore();
        mc::setup_begin();
        let how = mc::choose(2);
        let (a, b, rp) = scene(true);
        mc::setup_end();
        if how == 0 {
            b.a.panic();
        } else {
            b.post(|| async { Process::unregister("t") });
        }
        let r = a.call(move || watch(W::Name, rp)).unwrap();
        mc::settle();
        let got = fired(W::Name, rp, r, &a.events());
        let gone = vec![ExitR::from("noproc")];
        if how == 0 {
            check!(got == gone || got == [ExitR::from("boom")], "report", "{:?}", got);
        } else {
            check!(got == gone || got.is_empty(), "report", "{:?}", got);
            if got.is_empty() {
                b.a.panic();
                mc::settle();
                let got = fired(W::Name, rp, r, &a.events());
                check!(got == [ExitR::from("boom")], "report", "{:?}", got);
            }
        }
        check!(a.events().is_empty(), "twice", "");
        no_stray_panics(&[]);
        mc::outcome((how, got));
    })
}

/// Disconnecting, connecting and watching anew: the old watch reports the loss, the new one lasts.
fn again() -> Scenario {
    sc("reconnect", (1, 2), 4).run(|| {
        mc::settle();
        mc::explore();
        mc::setup_begin();
        let w = [W::Pid, W::Name][mc::choose(2)];
        let forget = mc::choose(2) == 1;
        let (a, b, rp) = scene(true);
        let r = a.call(move || watch(w, rp)).unwrap();
        mc::settle();
        mc::setup_end();
        let wire = on(1, || rmp_serde::to_vec_named(&b.pid).unwrap());
        let (rp2, r2) = a
            .call(move || {
                if forget {
                    Node::forget(node_of(1));
                } else {
                    Node::disconnect(node_of(1));
                }
                // A forgotten node gets a new identity.
                let rp2: Pid = rmp_serde::from_slice(&wire).unwrap();
                let r2 = watch(w, rp2);
                Process::send(rp2, M::N(7));
                (rp2, r2)
            })
            .unwrap();
        mc::settle();
        mc::settle_for(20 * SEC);
        let evs = a.events();
        let (old, new): (Vec<Ev>, Vec<Ev>) = evs.iter().cloned().partition(|e| matches!(e, Ev::Down(_, x, _) if Some(*x) == r));
        let old = fired(w, rp, r, &old);
        check!(old == [ExitR::from("noconnection")], "old-watch", "after {}: {:?}", if forget { "forget" } else { "disconnect" }, old);
        let new = fired(w, rp2, r2, &new);
        // The other side may still hold on to the old connection, and refuse the new one.
        check!(new.is_empty() || new == [ExitR::from("noconnection")], "new-watch", "{:?}", new);
        let up = new.is_empty();
        if up {
            check!(connected(0, 1) && connected(1, 0), "not-connected", "{:?} {:?}", state(0, 1), state(1, 0));
            check!(b.events() == [Ev::Msg(M::N(7))], "lost-message", "");
            b.a.panic();
            mc::settle();
            let new = fired(w, rp2, r2, &a.events());
            check!(new == [ExitR::from("boom")], "new-watch", "{:?}", new);
        }
        quiet_conn();
        mc::outcome((w, forget, up));
    })
}

/// Links between nodes, ended at either side at the same time.
fn links() -> Scenario {
    sc("links", (1, 2), 10).run(|| {
        mc::settle();
        mc::explore();
        mc::setup_begin();
        let pre = mc::choose(2) == 1;
        let (ea, eb) = (mc::choose(3), mc::choose(3));
        // Two nodes that connect to each other at once are another matter.
        let mutual = pre && mc::choose(2) == 1;
        let (a, b, rp) = scene(pre);
        let ra = move_to(0, 1, &a.pid);
        // Survivors that report what happened.
        mc::setup_end();
        a.call(move || Process::link(rp));
        if mutual {
            b.call(move || Process::link(ra));
        }
        mc::settle();
        let stop = |x: &Rem, how: usize| match how {
            1 => x.a.finish(),
            2 => x.a.panic(),
            _ => {}
        };
        stop(&b, eb);
        stop(&a, ea);
        mc::settle();
        let want = |how: usize, p: Pid| match how {
            1 => vec![Ev::Exit(p, ExitR::Normal)],
            2 => vec![Ev::Exit(p, ExitR::from("boom"))],
            _ => vec![],
        };
        if ea == 0 {
            let got = a.events();
            check!(got == want(eb, rp), "link-report", "{:?} instead of {:?}", got, want(eb, rp));
        }
        if eb == 0 {
            let got = b.events();
            check!(got == want(ea, ra), "link-report", "{:?} instead of {:?}", got, want(ea, ra));
        }
        no_stray_panics(&[]);
        mc::outcome((pre, ea, eb, mutual));
    })
}

/// After an unlink the end of the former partner has no effect.
fn unlinked() -> Scenario {
    sc("unlink", (1, 2), 4).run(|| {
        mc::settle();
        mc::explore();
        mc::setup_begin();
        let (trapping, how) = (mc::choose(2) == 1, mc::choose(2));
        up(0);
        up(1);
        let (a, b) = (Rem::spawn(0, "a"), Rem::spawn(1, "b"));
        mc::settle();
        connect(&a, 1);
        if trapping {
            a.call(|| trap());
        }
        let rp = b.pid_on(0);
        a.call(move || Process::link(rp));
        mc::settle();
        mc::setup_end();
        if how == 0 {
            b.a.panic();
        } else {
            mcnet::reset(mcnet::connections() - 1);
        }
        let before = a.exec(move || async move {
            let before = events().await;
            Process::unlink(rp);
            before
        });
        mc::settle();
        // Without trapping it may have been ended before the unlink.
        match before {
            Some(before) if before.is_empty() => {
                let late = a.events();
                if trapping {
                    // It may have been queued between looking and unlinking.
                    check!(late.len() <= 1, "twice", "{:?}", late);
                } else {
                    check!(late.is_empty(), "after-unlink", "{:?}", late);
                }
            }
            Some(before) => {
                check!(trapping && before.len() == 1, "link-report", "{:?}", before);
                check!(a.events().is_empty(), "twice", "");
            }
            None => check!(!trapping, "died", ""),
        }
        // From now on nothing happens to it.
        let up = a.alive();
        if b.alive() {
            b.a.panic();
        }
        mc::settle();
        check!(a.alive() == up && (!up || a.events().is_empty()), "after-unlink", "");
        quiet_conn();
        mc::outcome((trapping, how, up));
    })
}

/// Calls to a server of another node come back: with the reply, the end, the loss, or late.
fn calls() -> Scenario {
    sc("calls", (1, 2), 12).run(|| {
        mc::settle();
        mc::explore();
        mc::setup_begin();
        up(0);
        up(1);
        let a = Rem::spawn(0, "a");
        let b = Rem::spawn(1, "b");
        mc::settle();
        let s = Srv::new();
        let s2 = s.clone();
        let by_name = mc::choose(2) == 1;
        let pid = on(1, || {
            b.exec(move || async move { s2.start(GenServerOptions::new().name("srv")).await.unwrap() }).unwrap()
        });
        connect(&a, 1);
        let rp = move_to(1, 0, &pid);
        let how = mc::choose(8);
        mc::setup_end();
        let q = if how == 3 { Q::Boom } else if how == 4 { Q::Slow(1, 3000) } else if how == 7 { Q::Defer(1) } else { Q::Echo(1) };
        let res: Shared<Option<Result<Q, CallError>>> = Shared::new(None);
        let r2 = res.clone();
        a.post(move || async move {
            let to = if by_name { Dest::from((if how == 5 { "nobody" } else { "srv" }, node_of(1))) } else { Dest::from(rp) };
            let r = Srv::call(to, q, Some(ms(2000))).await;
            r2.set(Some(r));
        });
        match how {
            1 => mcnet::reset(mcnet::connections() - 1),
            2 => {
                proc_on(1, "killer", async move { Process::exit(pid, ExitReason::Kill) });
            }
            6 => mcnet::partition(mcnet::connections() - 1),
            _ => {}
        }
        mc::settle();
        if how == 7 {
            // Answered twice.
            let s = s.clone();
            b.call(move || {
                let (from, n) = s.deferred.with(|d| d.remove(0));
                Srv::reply(from, Q::Ans(n));
                Srv::reply(from, Q::Ans(n + 1));
            });
            mc::settle();
        }
        mc::settle_for(2100 * MS);
        let got = match res.with(|r| r.take()) {
            None => mc::violation("hang", &format!("a call did not return within its limit, {}", how)),
            Some(Ok(q)) => format!("{:?}", q),
            Some(Err(CallError::Timeout(_))) => "timeout".to_string(),
            Some(Err(CallError::ServerDown(r))) => format!("down {:?}", ExitR::from(r)),
        };
        let ok = format!("{:?}", Q::Ans(1));
        let want: Vec<String> = match how {
            0 => vec![ok],
            1 => vec![ok, "down Custom(\"noconnection\")".into()],
            2 => vec![ok, "down Kill".into(), "down Custom(\"noproc\")".into()],
            3 => vec!["down Custom(\"boom\")".into()],
            4 => vec!["timeout".into()],
            5 if by_name => vec!["down Custom(\"noproc\")".into()],
            5 | 7 => vec![ok],
            _ => vec![ok, "timeout".into()],
        };
        check!(want.contains(&got), "call-result", "{}: {} is none of {:?}", how, got, want);
        mc::settle_for(5 * SEC);
        let left = on(0, || Process::info(a.pid)).map_or(0, |i| i.message_queue_len);
        // Unless the connection or the server was lost while the reply came.
        check!(left == 0 || matches!(how, 1 | 2 | 6), "late-reply", "{}: {}, and {} more for the caller", how, got, left);
        check!(a.events().is_empty(), "late-message", "");
        quiet_conn();
        mc::outcome((how, by_name, got));
    })
}

/// The connection is lost while the watch is being installed, also when it cannot be made at all.
fn install_loss() -> Scenario {
    sc("install-and-loss", (1, 2), 8).run(|| {
        mc::settle();
        mc::explore();
        mc::setup_begin();
        let w = ALL[mc::choose(5)];
        let f = mc::choose(6);
        if f == 5 {
            // Our own node cannot listen, and ends.
            mc::setup_end();
            return no_listener(w);
        }
        let (a, b, rp) = scene(f < 3);
        if f == 3 {
            on(1, || Rem::spawn(1, "far")).call(|| Node::stop());
            mc::settle();
        }
        if f == 4 {
            mcnet::blackhole(addr(1));
        }
        mc::setup_end();
        let got: Shared<Option<Option<Reference>>> = Shared::new(None);
        let g2 = got.clone();
        a.post(move || async move { g2.set(Some(watch(w, rp))) });
        match f {
            0 => mcnet::reset(mcnet::connections() - 1),
            1 => {
                proc_on(0, "far", async { Node::disconnect(node_of(1)) });
            }
            2 => {
                proc_on(1, "far", async { Node::disconnect(node_of(0)) });
            }
            _ => {}
        }
        mc::settle();
        mc::settle_for(10 * SEC);
        let r = got.get().unwrap();
        let got = fired(w, rp, r, &a.events());
        let lost = vec![ExitR::from("noconnection")];
        if f >= 3 {
            check!(got == lost, "report", "no connection possible, watched by {:?}: {:?}", w, got);
        } else {
            check!(got == lost || (got.is_empty() && connected(0, 1)), "report", "watched by {:?}: {:?}, {:?}", w, got, state(0, 1));
        }
        if got.is_empty() {
            b.a.panic();
            mc::settle();
            let got = fired(w, rp, r, &a.events());
            check!(got == [ExitR::from("boom")], "report", "watched by {:?}, installed after the loss: {:?}", w, got);
        }
        mc::settle_for(60 * SEC);
        check!(a.events().is_empty(), "twice", "");
        quiet_conn();
        mc::outcome((w, f, got));
    })
}

/// The connection cannot be made, or is given up while it is made; a later one does not revive the watch.
fn second_try() -> Scenario {
    sc("second-try", (0, 1), 30).run(|| {
        mc::settle();
        mc::explore();
        mc::setup_begin();
        let w = ALL[mc::choose(5)];
        let f = mc::choose(6);
        let (a, b, rp) = scene(false);
        mcnet::blackhole(addr(1));
        mc::setup_end();
        let r = a.call(move || watch(w, rp)).unwrap();
        mc::settle();
        match f {
            0 => mc::settle_for(20 * SEC),
            1 => {
                a.call(|| Node::disconnect(node_of(1)));
            }
            2 => {
                a.call(|| Node::forget(node_of(1)));
            }
            3 => {
                a.call(|| Node::stop());
            }
            // At once.
            _ => {
                mcnet::heal();
                a.call(move || {
                    if f == 4 {
                        Node::disconnect(node_of(1));
                    } else {
                        Node::forget(node_of(1));
                    }
                    Node::connect(node_of(1));
                });
            }
        }
        mc::settle();
        let lost = vec![ExitR::from("noconnection")];
        let got = fired(w, rp, r, &a.events());
        check!(got == lost, "report", "the connection was not made ({}), watched by {:?}: {:?}", f, w, got);
        // Some time later all is well.
        mc::quiet(|| {
            mc::settle_for(100 * SEC);
            mcnet::heal();
            if f == 3 {
                up(0);
                mc::settle();
            }
        });
        if f < 4 {
            connect(&a, 1);
        } else {
            check!(connected(0, 1) && connected(1, 0), "not-connected", "{:?} {:?}", state(0, 1), state(1, 0));
        }
        let i = on(1, || Process::info(b.pid)).unwrap();
        check!(i.links.is_empty() && i.monitored_by.is_empty(), "revived", "({}) watched by {:?}, after the report: {:?}", f, w, i);
        b.a.panic();
        mc::settle();
        mc::settle_for(60 * SEC);
        let more = a.events();
        check!(more.is_empty(), "revived", "({}) watched by {:?}, reported again: {:?}", f, w, more);
        quiet_conn();
        mc::outcome((w, f));
    })
}

/// The local node fails to start while it is used.
fn no_listener(w: W) {
    mc::quiet(|| {
        up(1);
        on(3, || task("squatter", async { std::mem::forget(tokio::net::TcpListener::bind(addr(0)).await.unwrap()) }));
        mc::settle();
    });
    let b = Rem::spawn(1, "b");
    let a = Rem::spawn(0, "a");
    let p = b.pid;
    mc::quiet(|| {
        b.call(move || Process::register(p, "t").unwrap());
        a.call(|| trap());
        mc::settle();
    });
    up(0);
    let rp = b.pid_on(0);
    let got: Shared<Option<Option<Reference>>> = Shared::new(None);
    let g2 = got.clone();
    a.post(move || async move { g2.set(Some(watch(w, rp))) });
    mc::settle();
    mc::settle_for(60 * SEC);
    let Some(r) = got.get() else { mc::violation("watch-hang", "") };
    let got = fired(w, rp, r, &a.events());
    check!(got == [ExitR::from("noconnection")], "report", "the local node could not listen, watched by {:?}: {:?}", w, got);
    check!(on(0, || !Node::alive()), "node-alive", "");
    mc::outcome((w, 5, got));
}
