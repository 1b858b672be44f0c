//! C20: a registry that ends takes its processes with it as configured, only those, and leaves its name free.

use super::c19_registry::*;
use crate::sup::*;
use crate::util::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![matrix(), interleaved(), restart(), durations()]
}

fn modes() -> [Shutdown; 4] {
    [Shutdown::BrutalKill, Shutdown::Duration(ms(0)), Shutdown::Duration(ms(1000)), Shutdown::Infinity]
}

/// Every time a process may be given.
fn durations() -> Scenario {
    seq("durations", 25).run(|| {
        mc::settle();
        mc::explore();
        let (i, late) = (mc::choose(SPANS.len()), mc::choose(2) == 1);
        let d = SPANS[i];
        let need = if late { d + 1 } else { d - 1 };
        let ctl = Ctl::new();
        let parent = Agent::spawn("parent");
        let r = registry(&ctl, "reg", move |_| Kind::Trap(need)).with_shutdown(Shutdown::Duration(ms(d)));
        let pid = parent.exec(move || async move { r.start_link(RegistryOptions::new()).await.unwrap() }).unwrap();
        let client = Agent::spawn("client");
        client.exec(move || perform(Dest::from("reg"), "x", ROp::Start)).unwrap();
        parent.panic();
        let t = need.min(d);
        if t > 0 {
            mc::settle_for((t - 1) * MS);
            check!(ctl.running("x").len() == 1 && Process::alive(pid), "killed-early", "{} ms, needs {}: {:?}", d, need, ctl.log());
        }
        // The limit itself may be taken generously.
        mc::settle_for(2 * MS);
        mc::settle();
        check!(ctl.running("x").is_empty(), "not-ended", "{} ms, needs {}: {:?}", d, need, ctl.log());
        check!(!Process::alive(pid), "registry-wait", "{} ms, needs {}: the registry still runs", d, need);
        no_stray_panics(&[]);
        mc::outcome((i, late));
    })
}

/// Every mode, way to end and pair of kinds of processes, with times.
fn matrix() -> Scenario {
    seq("matrix", 100).run(|| {
        mc::settle();
        mc::explore();
        let kinds = [Kind::Plain, Kind::Trap(0), Kind::Trap(300), Kind::Trap(5000), Kind::Stubborn];
        let (m, k1, k2, how) = (mc::choose(4), kinds[mc::choose(5)], kinds[mc::choose(5)], mc::choose(4));
        let mode = modes()[m];
        let ctl = Ctl::new();
        let parent = Agent::spawn("parent");
        let r = registry(&ctl, "reg", move |i| if i == "x" { k1 } else if i == "y" { k2 } else { Kind::Plain }).with_shutdown(mode);
        let pid = parent.exec(move || async move { r.start_link(RegistryOptions::new()).await.unwrap() }).unwrap();
        let client = Agent::spawn("client");
        for id in ["x", "y", "z"] {
            client.exec(move || perform(Dest::from("reg"), id, ROp::Start)).unwrap();
        }
        // z was removed before: it keeps running.
        let by_name = how % 2 == 0;
        client.exec(move || perform(if by_name { Dest::from("reg") } else { Dest::from(pid) }, "z", ROp::Remove)).unwrap();
        mc::settle();
        let end = watch_end(pid);
        let t0 = mc::now();
        match how {
            0 => parent.panic(),
            1 => {
                proc("stopper", async move {
                    let _ = Registry::stop(pid, ExitReason::Normal, None).await;
                });
            }
            2 => {
                proc("stopper", async move {
                    let _ = Registry::stop(pid, ExitReason::from("bad"), None).await;
                });
            }
            _ => signal(pid, ExitReason::Kill),
        }
        let what = format!("{:?}, {:?} and {:?}, way {}", mode, k1, k2, how);
        // A killed registry cannot wait for anybody.
        let gentle = how != 3;
        let times = |k: Kind| -> Option<u64> {
            match (mode, k) {
                _ if !gentle => Some(0),
                (Shutdown::BrutalKill, _) | (_, Kind::Plain) => Some(0),
                (Shutdown::Duration(d), Kind::Trap(t)) => Some(t.min(d.as_millis() as u64)),
                (Shutdown::Duration(d), _) => Some(d.as_millis() as u64),
                (Shutdown::Infinity, Kind::Trap(t)) => Some(t),
                (Shutdown::Infinity, _) => None,
            }
        };
        let (t1, t2) = (times(k1), times(k2));
        mc::settle();
        for s in [0, 299, 300, 301, 999, 1001, 2001, 4999, 5001, 12000] {
            mc::settle_for((t0 + s * MS).saturating_sub(mc::now()));
            mc::settle();
            for (id, k, t) in [("x", k1, t1), ("y", k2, t2)] {
                let up = !ctl.running(id).is_empty();
                if let (Shutdown::Duration(d), true) = (mode, gentle) {
                    // How much longer than its own time a process may get while others are waited for is left open.
                    let own = if let Kind::Trap(t) = k { t } else { 0 };
                    let late = 2 * d.as_millis() as u64;
                    check!(up || k == Kind::Plain || s >= t.unwrap(), "killed-early", "{}: {} ended within {} ms: {:?}", what, id, s, ctl.log());
                    check!(!up || s < late.max(t.unwrap()) || s <= t.unwrap().min(own), "not-ended", "{}: {} runs after {} ms: {:?}", what, id, s, ctl.log());
                } else {
                    check!(up == t.is_none_or(|t| s < t), "ended", "{}: {} running {} after {} ms: {:?}", what, id, up, s, ctl.log());
                }
            }
            // The registry waits for all of them.
            let any = !ctl.running("x").is_empty() || !ctl.running("y").is_empty();
            check!(Process::alive(pid) == any, "registry-wait", "{} after {} ms: registry alive {}, processes running {}", what, s, Process::alive(pid), any);
            check!(ctl.running("z").len() == 1, "removed-killed", "{}: {:?}", what, ctl.log());
        }
        if t1.is_some() && t2.is_some() {
            check!(end.get() == vec![[ExitR::from("boom"), ExitR::Normal, ExitR::from("bad"), ExitR::Kill][how].clone()], "end-reason", "{:?}", end.get());
            let c2 = client.clone();
            check!(list(&c2, || Dest::from("reg")).is_empty(), "table-left", "");
            check!(Process::whereis("reg").is_none(), "name-left", "");
        }
        no_stray_panics(&[]);
        mc::outcome((m, k1, k2, how));
    })
}

/// The end of the registry against a removal, a start, and the end of a process.
fn interleaved() -> Scenario {
    sc("interleaved", (1, 2), 10).run(|| {
        let ctl = Ctl::new();
        let m = Shared::new(0usize);
        let clients = [Agent::spawn("client-1"), Agent::spawn("client-2")];
        mc::settle();
        mc::explore();
        m.set(mc::choose(3));
        let mode = [Shutdown::BrutalKill, Shutdown::Duration(ms(50)), Shutdown::Infinity][m.get()];
        let r = registry(&ctl, "reg", |_| Kind::Plain).with_shutdown(mode);
        let (pid, x) = mc::quiet(|| {
            let pid = start_reg(r, RegistryOptions::new()).unwrap();
            (pid, clients[0].exec(|| perform(Dest::from("reg"), "x", ROp::Start)).unwrap())
        });
        let RRes::Pid(Some(xp)) = x else { mc::violation("result", &format!("{:?}", x)) };
        let (how, o, by_name) = (mc::choose(2), mc::choose(4), mc::choose(2) == 0);
        let out: Shared<Option<RRes>> = Shared::new(None);
        match o {
            0 => {
                ctl.cmd("x", Cmd::Panic);
            }
            _ => {
                let out = out.clone();
                let (id, op) = [("x", ROp::Remove), ("y", ROp::LookupOrStart), ("x", ROp::Stop)][o - 1];
                clients[0].post(move || async move {
                    let r = perform(if by_name { Dest::from("reg") } else { Dest::from(pid) }, id, op).await;
                    out.set(Some(r));
                });
            }
        }
        if how == 0 {
            signal(pid, ExitReason::Kill);
        } else {
            clients[1].post(move || async move {
                let _ = Registry::stop(pid, ExitReason::from("bad"), None).await;
            });
        }
        mc::settle_for(20 * SEC);
        check!(!Process::alive(pid), "registry-hang", "{:?} {} {}", mode, how, o);
        check!(o == 0 || out.get().is_some(), "call-hang", "");
        let removed = o == 1 && out.get() == Some(RRes::Pid(Some(xp)));
        let run: Vec<Pid> = ctl.running("x").iter().map(|r| r.1).collect();
        // A removal by name only has told the registry with its next message: it may end before.
        if removed && how == 1 {
            check!(run == vec![xp], "removed-killed", "{:?}: the removed process runs {:?}: {:?}", mode, run, ctl.log());
        }
        if !removed {
            check!(run.is_empty(), "orphan", "{:?} way {} operation {}: {:?}", mode, how, o, ctl.log());
        }
        check!(ctl.running("y").is_empty(), "orphan", "{:?} way {} operation {}: {:?}", mode, how, o, ctl.log());
        let l = mc::quiet(|| list(&clients[0], || Dest::from("reg")));
        check!(l.is_empty() && Process::whereis("reg").is_none(), "table-left", "{:?}", l);
        no_stray_panics(&[]);
        mc::outcome((mode, how, o, out.get().is_some_and(|r| matches!(r, RRes::Pid(Some(_)) | RRes::Ok))));
    })
}

/// A registry below a supervisor is restarted empty and works.
fn restart() -> Scenario {
    sc("restarted", (1, 2), 4).run(|| {
        let ctl = Ctl::new();
        let c = AssertSend(ctl.clone());
        let m = AssertSend(Shared::new(0usize));
        let m2 = AssertSend(m.0.clone());
        let spec = move || registry(&c.0, "reg", |_| Kind::Plain).with_shutdown(modes()[[0, 3][m2.0.get()]]).child_spec(RegistryOptions::new());
        mc::settle();
        mc::explore();
        m.0.set(mc::choose(2));
        let client = Agent::spawn("client");
        let pid = mc::quiet(|| start_sup(Supervisor::new().add_child(spec()))).unwrap();
        let old = Process::whereis("reg").unwrap();
        let x = mc::quiet(|| client.exec(|| perform(Dest::from("reg"), "x", ROp::Start)).unwrap());
        let how = mc::choose(2);
        if how == 0 {
            signal(old, ExitReason::Kill);
        } else {
            proc("stopper", async move {
                let _ = Registry::stop(old, ExitReason::from("bad"), None).await;
            });
        }
        mc::settle_for(SEC);
        check!(Process::alive(pid), "sup-died", "");
        let new = Process::whereis("reg");
        check!(new.is_some() && new != Some(old), "not-restarted", "{:?}", new);
        check!(list(&client, || Dest::from("reg")).is_empty() && !ctl.any_running(), "orphan", "{:?}", ctl.log());
        let y = client.exec(|| perform(Dest::from("reg"), "x", ROp::LookupOrStart)).unwrap();
        let z = client.exec(|| perform(Dest::from("reg"), "x", ROp::Lookup)).unwrap();
        check!(x != y && y == z && matches!(y, RRes::Pid(Some(_))), "result", "{:?} {:?} {:?}", x, y, z);
        mc::settle_for(SEC);
        check!(ctl.running("x").len() == 1, "running", "");
        no_stray_panics(&[]);
        mc::outcome((m.0.get(), how));
    })
}
