//! C19: a registry leads from each key to at most one running process, like its reference model.

use crate::sup::*;
use crate::util::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![histories(), busy(), same_key(), end_race(), remove_race(), names(), no_start()]
}

pub fn key_of(id: &str) -> RegistryKey {
    match id {
        "one" => RegistryKey::from(1i32),
        "wide" => RegistryKey::from(1i128),
        _ => RegistryKey::from(id),
    }
}

fn id_of(k: &RegistryKey) -> &'static str {
    match k {
        RegistryKey::Integer32(1) => "one",
        RegistryKey::Integer128(1) => "wide",
        RegistryKey::String(s) => ["1", "x", "y", "z"].into_iter().find(|i| i == s).unwrap(),
        k => mc::violation("registry-key", &format!("{:?}", k)),
    }
}

/// A registry whose processes are controlled by the scenario.
pub fn registry(ctl: &Ctl, name: &str, kind: impl Fn(&str) -> Kind + 'static) -> Registry {
    let c = AssertSend((ctl.clone(), kind));
    Registry::new(name).with_start(move |key| {
        let c = &c;
        let id = id_of(&key);
        AssertSend(c.0 .0.clone().start(id, (c.0 .1)(id)))
    })
}

pub fn start_reg(r: Registry, o: RegistryOptions) -> Result<Pid, ExitR> {
    let out: Shared<Option<Result<Pid, ExitR>>> = Shared::new(None);
    let o2 = out.clone();
    proc("starter", async move {
        let r = r.start(o).await;
        o2.set(Some(r.map_err(|e| e.into())));
    });
    mc::settle_for(60 * SEC);
    out.get().unwrap_or_else(|| mc::violation("registry-start-hang", ""))
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum RRes {
    Ok,
    Pid(Option<Pid>),
    Call,
    Start(ExitR),
    NotSupported,
    Already(Pid),
    NotFound,
    Hang,
}

fn res<T>(r: Result<T, RegistryError>, f: impl Fn(T) -> RRes) -> RRes {
    match r {
        Ok(v) => f(v),
        Err(RegistryError::CallError(_)) => RRes::Call,
        Err(RegistryError::StartError(r)) => RRes::Start(r.into()),
        Err(RegistryError::StartNotSupported) => RRes::NotSupported,
        Err(RegistryError::AlreadyStarted(p)) => RRes::Already(p),
        Err(RegistryError::NotFound) => RRes::NotFound,
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum ROp {
    Lookup,
    LookupOrStart,
    Start,
    Stop,
    Remove,
}

pub async fn perform(d: Dest, id: &'static str, op: ROp) -> RRes {
    let k = key_of(id);
    match op {
        ROp::Lookup => res(Registry::lookup(d, k, None).await, RRes::Pid),
        ROp::LookupOrStart => res(Registry::lookup_or_start(d, k, None).await, |p| RRes::Pid(Some(p))),
        ROp::Start => res(Registry::start_process(d, k, None).await, |p| RRes::Pid(Some(p))),
        ROp::Stop => res(Registry::stop_process(d, k, None).await, |_| RRes::Ok),
        ROp::Remove => res(Registry::remove(d, k, None).await, RRes::Pid),
    }
}

pub fn list(client: &Agent, d: impl Fn() -> Dest) -> BTreeMap<RegistryKey, Pid> {
    let (a, b) = (d(), d());
    let (l, n) = client
        .exec(move || async move { (Registry::list(a, None).await.unwrap(), Registry::count(b, None).await.unwrap()) })
        .unwrap_or_else(|| mc::violation("list-hang", ""));
    check!(l.len() == n, "count", "{} listed, {} counted", l.len(), n);
    let m: BTreeMap<RegistryKey, Pid> = l.iter().cloned().collect();
    check!(m.len() == l.len(), "duplicate-key", "{:?}", l);
    m
}

/// Every history of requests, by name and by identifier, and ends.
fn histories() -> Scenario {
    let depth = if thorough() { 4 } else { 3 };
    seq("histories", 1000).run(move || {
        mc::settle();
        mc::explore();
        let ctl = Ctl::new();
        // Two keys that look alike; the processes of one ignore requests to end.
        let pair = [["x", "one"], ["1", "one"], ["one", "wide"]][mc::choose(3)];
        let stubborn = pair[0];
        let pid = start_reg(registry(&ctl, "reg", move |i| if i == stubborn { Kind::Stubborn } else { Kind::Plain }), RegistryOptions::new()).unwrap();
        let client = Agent::spawn("client");
        let by_name = mc::choose(2) == 0;
        let dest = move || if by_name { Dest::from("reg") } else { Dest::from(pid) };
        // Registered instance per key; running instances per key.
        let mut reg: BTreeMap<&str, Pid> = BTreeMap::new();
        let mut free: BTreeMap<&str, Vec<Pid>> = BTreeMap::new();
        let mut trail = vec![];
        for _ in 0..depth {
            let id = pair[mc::choose(2)];
            let k = mc::choose(7);
            let what;
            if k == 6 {
                // The newest instance ends.
                what = format!("end {}", id);
                let newest = ctl.running(id).last().copied();
                if newest.is_none() {
                    return;
                }
                ctl.cmd(id, [Cmd::Panic, Cmd::Return][trail.len() % 2]);
                mc::settle();
                let p = newest.unwrap().1;
                if reg.get(id) == Some(&p) {
                    reg.remove(id);
                }
                free.entry(id).or_default().retain(|x| *x != p);
            } else {
                let (op, fail) = [
                    (ROp::Lookup, false),
                    (ROp::LookupOrStart, false),
                    (ROp::LookupOrStart, true),
                    (ROp::Start, false),
                    (ROp::Stop, false),
                    (ROp::Remove, false),
                ][k];
                what = format!("{:?} {} {}", op, id, if fail { "(fails)" } else { "" });
                if fail {
                    if reg.contains_key(id) {
                        return;
                    }
                    ctl.plan(id, Plan::Fail("no"));
                }
                let n0 = ctl.running(id).len();
                let d = dest();
                let got = client.exec(move || perform(d, id, op)).unwrap_or(RRes::Hang);
                mc::settle();
                let have = reg.get(id).copied();
                let fresh = ctl.running(id).last().map(|k| k.1);
                let want = match (op, have) {
                    (ROp::Lookup, h) => RRes::Pid(h),
                    (ROp::LookupOrStart, Some(p)) => RRes::Pid(Some(p)),
                    (ROp::Start, Some(p)) => RRes::Already(p),
                    (ROp::LookupOrStart | ROp::Start, None) if fail => RRes::Start(ExitR::from("no")),
                    (ROp::LookupOrStart | ROp::Start, None) => {
                        check!(ctl.running(id).len() == n0 + 1, "not-started", "after {:?} {}", trail, what);
                        reg.insert(id, fresh.unwrap());
                        RRes::Pid(fresh)
                    }
                    (ROp::Stop, None) => RRes::NotFound,
                    (ROp::Stop, Some(p)) => {
                        reg.remove(id);
                        if id == stubborn {
                            free.entry(id).or_default().push(p);
                        }
                        RRes::Ok
                    }
                    (ROp::Remove, None) => RRes::Pid(None),
                    (ROp::Remove, Some(p)) => {
                        reg.remove(id);
                        free.entry(id).or_default().push(p);
                        RRes::Pid(Some(p))
                    }
                };
                check!(got == want, "result", "after {:?}, {}: {:?}, expected {:?}", trail, what, got, want);
            }
            trail.push(what);
            let l = list(&client, dest);
            let want: BTreeMap<RegistryKey, Pid> = reg.iter().map(|(k, p)| (key_of(k), *p)).collect();
            check!(l == want, "table", "after {:?}: {:?}, expected {:?}", trail, l, want);
            for id in pair {
                let mut run: Vec<Pid> = ctl.running(id).iter().map(|r| r.1).collect();
                let mut want: Vec<Pid> = free.get(id).cloned().unwrap_or_default();
                want.extend(reg.get(id));
                run.sort();
                want.sort();
                check!(run == want, "running", "after {:?}: running processes of {}: {:?}, expected {:?}", trail, id, run, want);
            }
            check!(Process::alive(pid), "registry-died", "after {:?}", trail);
        }
        // Processes that were removed or outlived stop are no longer tied to the registry.
        signal(pid, ExitReason::Kill);
        mc::settle();
        for id in pair {
            let mut run: Vec<Pid> = ctl.running(id).iter().map(|r| r.1).collect();
            let mut want: Vec<Pid> = free.get(id).cloned().unwrap_or_default();
            run.sort();
            want.sort();
            check!(run == want, "removed-killed", "after {:?} and the end of the registry: running processes of {}: {:?}, expected {:?}", trail, id, run, want);
        }
        no_stray_panics(&[]);
        mc::outcome((pair, by_name, trail));
    })
}

/// Requests and ends that pile up while the registry is busy: whatever their order, in the end each
/// process it started is registered and runs, or has ended, or was handed out by a removal.
fn busy() -> Scenario {
    let depth = if thorough() { 5 } else { 4 };
    seq("busy", 1000).run(move || {
        mc::settle();
        mc::explore();
        let ctl = Ctl::new();
        let pid = start_reg(registry(&ctl, "reg", |_| Kind::Plain), RegistryOptions::new()).unwrap();
        let client = Agent::spawn("client");
        client.exec(|| perform(Dest::from("reg"), "x", ROp::Start)).unwrap();
        ctl.plan("y", Plan::Slow(5));
        client.post(|| async {
            let _ = perform(Dest::from("reg"), "y", ROp::Start).await;
        });
        mc::settle();
        let out: Shared<BTreeMap<usize, RRes>> = Shared::new(BTreeMap::new());
        let mut trail = vec![];
        for i in 0..depth {
            // The rest of the requests is not made.
            let k = mc::choose(8);
            let (op, by_name) = match k {
                0 => break,
                1 => {
                    if !ctl.cmd("x", Cmd::Panic) {
                        return;
                    }
                    mc::settle();
                    trail.push(None);
                    continue;
                }
                2 => (ROp::Start, false),
                3 => (ROp::Remove, true),
                4 => (ROp::Stop, false),
                5 => (ROp::LookupOrStart, true),
                6 => (ROp::Remove, false),
                _ => (ROp::Start, true),
            };
            let out = out.clone();
            proc("requester", async move {
                let d = if by_name { Dest::from("reg") } else { Dest::from(pid) };
                let r = perform(d, "x", op).await;
                out.with(|o| o.insert(i, r));
            });
            mc::settle();
            trail.push(Some((op, by_name)));
        }
        mc::settle_for(SEC);
        let got = out.get();
        check!(got.len() == trail.iter().filter(|t| t.is_some()).count(), "call-hang", "{:?}: {:?}", trail, got);
        let running: Vec<Pid> = ctl.running("x").iter().map(|r| r.1).collect();
        let l = list(&client, || Dest::from("reg"));
        let listed = l.get(&key_of("x")).copied();
        let mut removed = vec![];
        for (i, t) in trail.iter().enumerate() {
            if let (Some((ROp::Remove, _)), Some(RRes::Pid(Some(p)))) = (t, got.get(&i)) {
                check!(!removed.contains(p), "removed-twice", "{:?}: {:?}", trail, got);
                removed.push(*p);
            }
        }
        for p in &running {
            check!(listed == Some(*p) || removed.contains(p), "lost", "{:?}: {:?}: {:?} runs, listed {:?}", trail, got, p, listed);
        }
        if let Some(p) = listed {
            check!(running.contains(&p) && !removed.contains(&p), "stale-entry", "{:?}: {:?}: listed {:?}, running {:?}", trail, got, p, running);
        }
        let by_name = client.exec(|| perform(Dest::from("reg"), "x", ROp::Lookup)).unwrap();
        let by_pid = client.exec(move || perform(Dest::from(pid), "x", ROp::Lookup)).unwrap();
        check!(by_name == RRes::Pid(listed) && by_pid == by_name, "lookup", "{:?}: listed {:?}, found {:?} and {:?}", trail, listed, by_name, by_pid);
        let y = l.get(&key_of("y")).copied();
        check!(y.is_some() && y == ctl.running("y").first().map(|r| r.1), "other-key", "{:?}: {:?}", trail, l);
        check!(Process::alive(pid), "registry-died", "after {:?}", trail);
        no_stray_panics(&[]);
        mc::outcome((trail, got));
    })
}

/// Several clients want the same key at once: one process.
fn same_key() -> Scenario {
    sc("same-key", (2, 3), 6).run(|| {
        let ctl = Ctl::new();
        let pid = start_reg(registry(&ctl, "reg", |_| Kind::Plain), RegistryOptions::new()).unwrap();
        let clients = [Agent::spawn("client-1"), Agent::spawn("client-2")];
        mc::settle();
        mc::explore();
        let (slow, o1, o2, by_name) = (mc::choose(2) == 1, mc::choose(2), mc::choose(2), mc::choose(2) == 0);
        if slow {
            ctl.plan("x", Plan::Slow(3));
        }
        let out: Shared<Vec<(ROp, RRes)>> = Shared::new(vec![]);
        for (c, o) in clients.iter().zip([o1, o2]) {
            let out = out.clone();
            let op = [ROp::LookupOrStart, ROp::Start][o];
            c.post(move || async move {
                let d = if by_name { Dest::from("reg") } else { Dest::from(pid) };
                let r = perform(d, "x", op).await;
                out.push((op, r));
            });
        }
        mc::settle_for(SEC);
        let run = ctl.running("x");
        check!(run.len() == 1 && ctl.log().len() == 1, "started-twice", "{:?}", ctl.log());
        let p = run[0].1;
        let got = out.get();
        check!(got.len() == 2, "call-hang", "{:?}", got);
        let starts = got.iter().filter(|g| **g == (ROp::Start, RRes::Pid(Some(p)))).count();
        for g in &got {
            let ok = *g == (ROp::LookupOrStart, RRes::Pid(Some(p))) || *g == (ROp::Start, RRes::Pid(Some(p))) || *g == (ROp::Start, RRes::Already(p));
            check!(ok, "result", "{:?}, process {:?}", got, p);
        }
        check!(starts <= 1, "started-twice", "{:?}", got);
        let l = mc::quiet(|| list(&clients[0], || Dest::from("reg")));
        check!(l == [(key_of("x"), p)].into_iter().collect(), "table", "{:?}", l);
        no_stray_panics(&[]);
        mc::outcome((slow, by_name, got));
    })
}

/// A process ends while it is looked up, started again or stopped.
fn end_race() -> Scenario {
    sc("end-race", (2, 3), 6).run(|| {
        let ctl = Ctl::new();
        let pid = start_reg(registry(&ctl, "reg", |_| Kind::Plain), RegistryOptions::new()).unwrap();
        let clients = [Agent::spawn("client-1"), Agent::spawn("client-2")];
        let first = mc::quiet(|| clients[0].exec(|| perform(Dest::from("reg"), "x", ROp::Start)));
        let Some(RRes::Pid(Some(old))) = first else { mc::violation("result", &format!("{:?}", first)) };
        mc::settle();
        mc::explore();
        let o = mc::choose(4);
        let by_name = mc::choose(2) == 0;
        let op = [ROp::LookupOrStart, ROp::Start, ROp::Stop, ROp::Remove][o];
        let out: Shared<Option<RRes>> = Shared::new(None);
        let o2 = out.clone();
        ctl.cmd("x", Cmd::Panic);
        clients[1].post(move || async move {
            let d = if by_name { Dest::from("reg") } else { Dest::from(pid) };
            let r = perform(d, "x", op).await;
            o2.set(Some(r));
        });
        mc::settle();
        let got = out.get().unwrap_or(RRes::Hang);
        let run: Vec<Pid> = ctl.running("x").iter().map(|r| r.1).collect();
        let fresh = run.first().copied();
        let l = mc::quiet(|| list(&clients[0], || Dest::from("reg")));
        let want: BTreeMap<RegistryKey, Pid> = fresh.iter().map(|p| (key_of("x"), *p)).collect();
        check!(l == want, "stale-entry", "{:?}: table {:?}, running {:?}", op, l, run);
        check!(run.len() <= 1, "started-twice", "{:?}", ctl.log());
        // Either the end had been noticed before, or not.
        let ok = match op {
            ROp::LookupOrStart => got == RRes::Pid(Some(fresh.unwrap_or(old))),
            ROp::Start => got == fresh.map(|p| RRes::Pid(Some(p))).unwrap_or(RRes::Already(old)),
            ROp::Stop => fresh.is_none() && (got == RRes::Ok || got == RRes::NotFound),
            _ => fresh.is_none() && (got == RRes::Pid(Some(old)) || got == RRes::Pid(None)),
        };
        check!(ok, "result", "{:?}: {:?}, old {:?}, running {:?}", op, got, old, run);
        check!(Process::alive(pid), "registry-died", "");
        no_stray_panics(&[]);
        mc::outcome((op, fresh.is_some(), got));
    })
}

/// A key is removed by one client while another one starts, stops or removes it.
fn remove_race() -> Scenario {
    sc("remove-race", (2, 3), 4).run(|| {
        let ctl = Ctl::new();
        let pid = start_reg(registry(&ctl, "reg", |_| Kind::Plain), RegistryOptions::new()).unwrap();
        let clients = [Agent::spawn("client-1"), Agent::spawn("client-2")];
        let first = mc::quiet(|| clients[0].exec(|| perform(Dest::from("reg"), "x", ROp::Start)));
        let Some(RRes::Pid(Some(old))) = first else { mc::violation("result", &format!("{:?}", first)) };
        mc::settle();
        mc::explore();
        let o = mc::choose(4);
        let by_name = mc::choose(2) == 0;
        let op = [ROp::LookupOrStart, ROp::Start, ROp::Stop, ROp::Remove][o];
        let out: Shared<[Option<RRes>; 2]> = Shared::new([None, None]);
        for (i, (c, op)) in clients.iter().zip([ROp::Remove, op]).enumerate() {
            let out = out.clone();
            c.post(move || async move {
                let d = if by_name || i == 0 { Dest::from("reg") } else { Dest::from(pid) };
                let r = perform(d, "x", op).await;
                out.with(|o| o[i] = Some(r));
            });
        }
        mc::settle();
        let [a, b] = out.get();
        let (a, b) = (a.unwrap_or(RRes::Hang), b.unwrap_or(RRes::Hang));
        let run: Vec<Pid> = ctl.running("x").iter().map(|r| r.1).collect();
        let fresh = run.iter().copied().find(|p| *p != old);
        let old_up = run.contains(&old);
        let old_r = RRes::Pid(Some(old));
        // Old process removed, new one registered; or in the other order.
        let (want_b, table): (Vec<(RRes, RRes, bool)>, Option<Pid>) = match op {
            ROp::LookupOrStart => match fresh {
                Some(f) => (vec![(old_r.clone(), RRes::Pid(Some(f)), true)], Some(f)),
                None => (vec![(old_r.clone(), old_r.clone(), true)], None),
            },
            ROp::Start => match fresh {
                Some(f) => (vec![(old_r.clone(), RRes::Pid(Some(f)), true)], Some(f)),
                None => (vec![(old_r.clone(), RRes::Already(old), true)], None),
            },
            // Stopped first: nothing to remove. Removed first: nothing to stop, it keeps running.
            ROp::Stop => (vec![(RRes::Pid(None), RRes::Ok, false), (old_r.clone(), RRes::NotFound, true)], None),
            _ => (vec![(old_r.clone(), RRes::Pid(None), true), (RRes::Pid(None), old_r.clone(), true)], None),
        };
        let got = (a, b, old_up);
        check!(want_b.contains(&got), "result", "remove and {:?}: {:?}, expected one of {:?}", op, got, want_b);
        let l = mc::quiet(|| list(&clients[0], || Dest::from("reg")));
        check!(l == table.iter().map(|p| (key_of("x"), *p)).collect(), "table", "remove and {:?}: {:?}", op, l);
        // The removed process is free of the registry.
        signal(pid, ExitReason::Kill);
        mc::quiet(|| mc::settle());
        check!(ctl.running("x").iter().map(|r| r.1).collect::<Vec<_>>() == if old_up { vec![old] } else { vec![] }, "removed-killed", "remove and {:?}: {:?}", op, ctl.log());
        no_stray_panics(&[]);
        mc::outcome((op, got));
    })
}

/// Registries of different and of the same name do not disturb each other.
fn names() -> Scenario {
    sc("names", (1, 2), 4).run(|| {
        let ctl = Ctl::new();
        let pid = start_reg(registry(&ctl, "reg", |_| Kind::Plain), RegistryOptions::new()).unwrap();
        let client = Agent::spawn("client");
        let x = client.exec(|| perform(Dest::from("reg"), "x", ROp::Start)).unwrap();
        mc::settle();
        mc::explore();
        let o = mc::choose(4);
        match o {
            0 => {
                // Never started.
                drop(registry(&ctl, "reg", |_| Kind::Plain));
                drop(registry(&ctl, "reg", |_| Kind::Plain).child_spec(RegistryOptions::new()));
            }
            1 => {
                let r = start_reg(registry(&ctl, "reg", |_| Kind::Plain), RegistryOptions::new());
                check!(r.is_err(), "same-name", "{:?}", r);
            }
            2 => {
                // Another name, which one is given either way.
                let p2 = start_reg(registry(&ctl, "reg", |_| Kind::Plain), RegistryOptions::new().name("other")).unwrap();
                let y = client.exec(|| perform(Dest::from("other"), "x", ROp::Start)).unwrap();
                let z = client.exec(|| perform(Dest::from("other"), "x", ROp::Lookup)).unwrap();
                check!(y != x && y == z, "two-registries", "{:?} {:?} {:?}", x, y, z);
                signal(p2, ExitReason::Kill);
                mc::settle();
                let l = client.exec(|| perform(Dest::from("other"), "x", ROp::Lookup)).unwrap();
                check!(l == RRes::Pid(None) && ctl.running("x").len() == 1, "two-registries", "{:?}", l);
            }
            _ => {
                let p2 = start_reg(registry(&ctl, "other", |_| Kind::Plain), RegistryOptions::new()).unwrap();
                let l = client.exec(|| perform(Dest::from("other"), "x", ROp::Lookup)).unwrap();
                check!(l == RRes::Pid(None), "two-registries", "{:?}", l);
                signal(p2, ExitReason::Kill);
                mc::settle();
            }
        }
        mc::settle();
        let l = client.exec(|| perform(Dest::from("reg"), "x", ROp::LookupOrStart)).unwrap();
        check!(l == x && Process::alive(pid) && ctl.running("x").len() == 1, "table-lost", "registered {:?}, later {:?}", x, l);
        no_stray_panics(&[]);
        mc::outcome(o);
    })
}

/// Without a start routine starting is refused, and nothing else changes.
fn no_start() -> Scenario {
    sc("no-start-routine", (1, 2), 4).run(|| {
        let pid = start_reg(Registry::new("reg"), RegistryOptions::new()).unwrap();
        let client = Agent::spawn("client");
        mc::settle();
        mc::explore();
        let (o, by_name) = (mc::choose(2), mc::choose(2) == 0);
        let op = [ROp::LookupOrStart, ROp::Start][o];
        let d = if by_name { Dest::from("reg") } else { Dest::from(pid) };
        let got = client.exec(move || perform(d, "x", op)).unwrap_or(RRes::Hang);
        check!(got == RRes::NotSupported, "not-supported", "{:?}", got);
        check!(Process::alive(pid) && list(&client, || Dest::from("reg")).is_empty(), "registry-died", "");
        no_stray_panics(&[]);
        mc::outcome((op, by_name));
    })
}
