//! C29: nodes connect, notice each other's loss in time, and forget, as their reference model says.

use crate::dist::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![history(), heartbeat(), contention(), down_race(), set_aside(), unreachable(), simultaneous(), duplicate(), restart()]
}

/// The state of node `y` on node `x` in the model.
type St = BTreeMap<(usize, usize), NodeState>;

fn norm(s: Option<NodeState>) -> &'static str {
    match s {
        None => "unknown",
        Some(NodeState::Known) => "known",
        Some(NodeState::Connected) => "connected",
        Some(NodeState::Pending) => "pending",
        Some(NodeState::Current) => "current",
    }
}

/// Every history of operations on three nodes against the model.
fn history() -> Scenario {
    let depth = if thorough() { 4 } else { 3 };
    seq("histories", 1000).run(move || {
        mc::settle();
        for n in 0..3 {
            up(n);
        }
        let ag: Vec<Rem> = (0..3).map(|n| Rem::spawn(n, "agent")).collect();
        mc::settle();
        mc::explore();
        let mut st: St = BTreeMap::new();
        let mut alive = [true; 3];
        // Monitors of node 1 held by node 0: references and expected number of reports.
        let mut mons: Vec<(Reference, bool)> = vec![];
        let mut trail = vec![];
        for _ in 0..depth {
            let op = mc::choose(14);
            trail.push(op);
            let (x, y) = [(0, 1), (1, 0), (0, 2), (2, 1)][op % 4];
            let before = st.clone();
            match op {
                0..=3 => {
                    if !alive[x] {
                        continue;
                    }
                    ag[x].call(move || Node::connect(node_of(y)));
                    if alive[y] {
                        st.insert((x, y), NodeState::Connected);
                        st.insert((y, x), NodeState::Connected);
                    } else {
                        st.insert((x, y), NodeState::Known);
                    }
                }
                4 | 5 => {
                    if !alive[x] {
                        continue;
                    }
                    ag[x].call(move || Node::disconnect(node_of(y)));
                    if st.contains_key(&(x, y)) {
                        if st[&(x, y)] == NodeState::Connected {
                            st.insert((y, x), NodeState::Known);
                        }
                        st.insert((x, y), NodeState::Known);
                    }
                }
                6 | 7 => {
                    let (x, y) = [(0, 1), (1, 0)][op - 6];
                    if !alive[x] {
                        continue;
                    }
                    ag[x].call(move || Node::forget(node_of(y)));
                    if st.remove(&(x, y)) == Some(NodeState::Connected) {
                        st.insert((y, x), NodeState::Known);
                    }
                }
                8 | 9 => {
                    let x = op - 8;
                    if alive[x] {
                        ag[x].call(|| Node::stop());
                        for y in 0..3 {
                            if st.remove(&(x, y)) == Some(NodeState::Connected) {
                                st.insert((y, x), NodeState::Known);
                            }
                        }
                    } else {
                        up(x);
                    }
                    alive[x] = !alive[x];
                }
                10 | 11 => {
                    if !alive[0] {
                        continue;
                    }
                    let r = ag[0].call(|| Node::monitor(node_of(1))).unwrap();
                    mons.push((r, true));
                    if alive[1] {
                        st.insert((0, 1), NodeState::Connected);
                        st.insert((1, 0), NodeState::Connected);
                    } else {
                        st.insert((0, 1), NodeState::Known);
                    }
                }
                12 => {
                    let Some(i) = mons.iter().position(|m| m.1) else { continue };
                    let r = mons[i].0;
                    mons[i].1 = false;
                    ag[0].call(move || Node::demonitor(r));
                }
                _ => {
                    mcnet::listening();
                    let n = mcnet::connections();
                    if n == 0 || !mcnet::open(n - 1) {
                        continue;
                    }
                    let (from, to) = mcnet::endpoints(n - 1);
                    let _ = from;
                    mcnet::reset(n - 1);
                    let y = (to.port() - 1000) as usize;
                    // Its other end is one of those connected to it.
                    mc::settle();
                    for x in 0..3 {
                        if st.get(&(x, y)) == Some(&NodeState::Connected) && !connected(x, y) {
                            st.insert((x, y), NodeState::Known);
                            st.insert((y, x), NodeState::Known);
                        }
                    }
                }
            }
            mc::settle();
            for x in 0..3 {
                for y in 0..3 {
                    if x != y {
                        let (got, want) = (norm(state(x, y)), norm(st.get(&(x, y)).copied()));
                        check!(got == want, "state", "after {:?}: node {} is {} to node {}, expected {}", trail, y, got, x, want);
                    }
                }
                let mut list = on(x, || Node::list());
                list.sort();
                let want: Vec<Node> = (0..3).filter(|y| st.contains_key(&(x, *y))).map(node_of).collect();
                check!(list == want, "list", "after {:?}: node {} lists {:?} instead of {:?}", trail, x, list, want);
                check!(on(x, || Node::alive()) == alive[x], "alive", "after {:?}", trail);
            }
            // A monitor fires if the connection is lost, or was not made.
            let lost = st.get(&(0, 1)) != Some(&NodeState::Connected)
                && (before.get(&(0, 1)) == Some(&NodeState::Connected) || op == 10 || op == 11 || op == 0);
            let got: Vec<Reference> = ag[0]
                .events()
                .into_iter()
                .map(|e| match e {
                    Ev::NodeDown(n, r) => {
                        check!(n == format!("{:?}", node_of(1)), "wrong-node", "{}", n);
                        r
                    }
                    e => mc::violation("alien-message", &format!("{:?}", e)),
                })
                .collect();
            let want: Vec<Reference> = mons.iter().filter(|m| m.1 && lost).map(|m| m.0).collect();
            let (gs, ws): (BTreeSet<Reference>, BTreeSet<Reference>) = (got.iter().copied().collect(), want.iter().copied().collect());
            check!(gs == ws && got.len() == want.len(), "node-down", "after {:?}: reported {:?} instead of {:?}", trail, got, want);
            for m in mons.iter_mut() {
                m.1 &= !lost;
            }
        }
        quiet_conn();
        mc::outcome(trail);
    })
}

/// Idle connections last, silent ones are given up in time, with each side's own limits.
fn heartbeat() -> Scenario {
    seq("heartbeat", 10).steps(2_000_000).run(|| {
        mc::settle();
        mc::explore();
        let limits = [(1000, 3000), (2000, 2500), (500, 10000), (5000, 45000), (5001, 5002), (61_000, 122_000), (60_001, 3_600_001)];
        let (l0, l1) = (limits[mc::choose(7)], limits[mc::choose(7)]);
        if l1.0 >= l0.1 || l0.0 >= l1.1 {
            // Nobody is to be silent longer than the other one waits.
            return;
        }
        let idle = [0, 700, 60_000, 400_000][mc::choose(4)];
        let talk = mc::choose(2) == 1;
        for (n, l) in [(0, l0), (1, l1)] {
            let mut o = opts(n);
            if l.0 != 5000 {
                // That is the default.
                o = o.heartbeat_interval(ms(l.0)).heartbeat_timeout(ms(l.1));
            }
            on(n, || Node::start(name(n), o));
        }
        let (a, b) = (Rem::spawn(0, "a"), Rem::spawn(1, "b"));
        mc::settle();
        connect(&a, 1);
        let mon = [a.call(|| Node::monitor(node_of(1))).unwrap(), b.call(|| Node::monitor(node_of(0))).unwrap()];
        let downs: [Shared<Vec<u64>>; 2] = [Shared::new(vec![]), Shared::new(vec![])];
        for (i, x) in [&a, &b].into_iter().enumerate() {
            let (d, r) = (downs[i].clone(), mon[i]);
            x.post(move || async move {
                loop {
                    match ev(Process::receiver().for_message::<M>().receive().await) {
                        Ev::NodeDown(_, x) if x == r => d.push(mc::now() / MS),
                        _ => (),
                    }
                }
            });
        }
        mc::settle_for(idle * MS);
        let keep = idle.max(1) as u64;
        check!(connected(0, 1) && connected(1, 0), "idle-lost", "limits {:?} {:?}: lost while idle for {} ms", l0, l1, keep);
        if talk {
            let rb = b.pid_on(0);
            proc_on(0, "talk", async move { Process::send(rb, M::Go) });
            mc::settle();
        }
        let cut = mc::now() / MS;
        mcnet::partition(0);
        mc::settle_for(120 * SEC + (l0.1 + l1.1) * MS);
        for (i, own, other) in [(0, l0, l1), (1, l1, l0)] {
            let d = downs[i].get();
            // The other side was last heard of at most one of its intervals before the cut.
            let (lo, hi) = (cut + own.1 - other.0.min(own.1), cut + own.1);
            check!(d.len() == 1, "not-noticed", "limits {:?}, {:?} of the other side: cut at {}, reported at {:?}", own, other, cut, d);
            check!(d[0] >= lo && d[0] <= hi + 1, "detection-time", "limits {:?}, {:?} of the other side: cut at {}, reported at {}, expected {} to {}", own, other, cut, d[0], lo, hi);
            check!(state(i, 1 - i) == Some(NodeState::Known), "state", "{:?}", state(i, 1 - i));
        }
        quiet_conn();
        mc::outcome((l0, l1, idle, talk, downs[0].get()));
    })
}

/// Several processes connect, disconnect and monitor at once: one connection, a consistent state.
fn contention() -> Scenario {
    sc("contention", (1, 2), 10).run(|| {
        mc::settle();
        up(0);
        up(1);
        mc::settle();
        mc::explore();
        let act = |n: usize| match n {
            0 => Node::connect(node_of(1)),
            1 => Node::disconnect(node_of(1)),
            2 => Node::forget(node_of(1)),
            _ => {
                Node::monitor(node_of(1));
            }
        };
        let (x, y) = (mc::choose(4), mc::choose(4));
        for n in [x, y] {
            proc_on(0, "client", async move { act(n) });
        }
        mc::settle();
        mc::settle_for(SEC);
        let (s, t) = (norm(state(0, 1)), norm(state(1, 0)));
        let breaks = [x, y].iter().any(|n| *n == 1 || *n == 2);
        let makes = [x, y].iter().any(|n| *n == 0 || *n == 3);
        check!((s == "connected") == (t == "connected") && s != "pending", "inconsistent", "{} {}: {} and {}", x, y, s, t);
        check!(breaks || s == "connected", "not-connected", "{} {}: {} and {}", x, y, s, t);
        check!(breaks || mcnet::connections() == 1, "connections", "{} connections for {} {}", mcnet::connections(), x, y);
        check!(makes || s != "connected", "connected", "{} {}", x, y);
        // And it can be connected at will.
        let a = Rem::spawn(0, "a");
        a.call(|| Node::connect(node_of(1)));
        mc::settle();
        check!(connected(0, 1) && connected(1, 0), "not-connected", "after {} {}: {:?} {:?}", x, y, state(0, 1), state(1, 0));
        quiet_conn();
        mc::outcome((x, y, s, t));
    })
}

/// A node monitor against the loss of the connection and demonitor.
fn down_race() -> Scenario {
    sc("monitor-and-loss", (1, 2), 5).run(|| {
        mc::settle();
        mc::explore();
        let how = mc::choose(4);
        let remove = mc::choose(2) == 1;
        mc::setup_begin();
        let (a, _b) = pair();
        mc::setup_end();
        let r: Shared<Option<Reference>> = Shared::new(None);
        let got: Shared<Vec<Ev>> = Shared::new(vec![]);
        let (r2, g2) = (r.clone(), got.clone());
        a.post(move || async move {
            let r = Node::monitor(node_of(1));
            r2.set(Some(r));
            if remove {
                tokio::task::yield_now().await;
                g2.with(|g| g.clear());
                let before = events().await;
                g2.with(|g| g.extend(before));
                Node::demonitor(r);
                let after = events().await;
                check!(after.is_empty(), "after-demonitor", "{:?}", after);
            }
        });
        match how {
            0 => mcnet::reset(0),
            1 => {
                proc_on(0, "x", async { Node::disconnect(node_of(1)) });
            }
            2 => {
                proc_on(1, "x", async { Node::disconnect(node_of(0)) });
            }
            _ => {
                proc_on(1, "x", async { Node::stop() });
            }
        }
        mc::settle();
        mc::settle_for(10 * SEC);
        let late = a.events();
        let r = r.get().unwrap();
        let down = Ev::NodeDown(format!("{:?}", node_of(1)), r);
        if remove {
            check!(late.is_empty(), "after-demonitor", "{:?}", late);
            check!(got.get().is_empty() || got.get() == [down], "node-down", "{:?}", got.get());
        } else {
            check!(late == [down] || (late.is_empty() && connected(0, 1)), "node-down", "{:?}, {:?}", late, state(0, 1));
        }
        quiet_conn();
        mc::outcome((how, remove, late.len() + got.get().len()));
    })
}

/// A node monitor is removed after a selective receive has set its report aside.
fn set_aside() -> Scenario {
    sc("set-aside", (1, 2), 16).run(|| {
        mc::settle();
        let (a, b) = pair();
        mc::explore();
        let select = mc::choose(2) == 1;
        let gone = mc::choose(8);
        let mut want = vec![];
        let got = {
            let rs = a.call(|| [Node::monitor(node_of(1)), Node::monitor(node_of(1)), Node::monitor(node_of(1))]).unwrap();
            b.call(|| Node::disconnect(node_of(0)));
            mc::settle();
            let all = a.exec(move || async move {
                let me = Process::current();
                Process::send(me, M::Go);
                if select {
                    let _ = Process::receiver().for_message::<M>().select(|m| matches!(m, Message::User(M::Go))).await;
                }
                for i in 0..3 {
                    if gone >> i & 1 == 1 {
                        Node::demonitor(rs[i]);
                    }
                }
                events().await
            })
            .unwrap();
            for i in 0..3 {
                if gone >> i & 1 == 0 {
                    want.push(Ev::NodeDown(format!("{:?}", node_of(1)), rs[i]));
                }
            }
            all
        };
        if !select {
            want.push(Ev::Msg(M::Go));
        }
        check!(got == want, "after-demonitor", "removed {:#b}: received {:?} instead of {:?}", gone, got, want);
        quiet_conn();
        mc::outcome((select, gone));
    })
}

/// Nodes that cannot be reached: refused, silent, or somebody else.
fn unreachable() -> Scenario {
    sc("unreachable", (1, 2), 6).run(|| {
        mc::settle();
        mc::explore();
        let how = mc::choose(4);
        let limit = [1000, 5000][mc::choose(2)];
        mc::setup_begin();
        if how != 3 {
            on(0, || Node::start(name(0), opts(0).handshake_timeout(ms(limit)).heartbeat_timeout(ms(1500)).heartbeat_interval(ms(700))));
        }
        if how == 1 {
            mcnet::blackhole(addr(1));
        }
        if how == 2 {
            // Another name at that address.
            on(1, || Node::start("other", opts(1)));
        }
        let a = Rem::spawn(0, "a");
        mc::settle();
        mc::setup_end();
        let begin = mc::now() / MS;
        let at: Shared<Vec<u64>> = Shared::new(vec![]);
        let at2 = at.clone();
        a.post(move || async move {
            let r = Node::monitor(node_of(1));
            loop {
                match ev(Process::receiver().for_message::<M>().receive().await) {
                    Ev::NodeDown(_, x) if x == r => at2.push(mc::now() / MS),
                    e => mc::violation("alien-message", &format!("{:?}", e)),
                }
            }
        });
        mc::settle();
        if how == 1 {
            check!(at.get().is_empty() && state(0, 1) == Some(NodeState::Pending), "state", "{:?}", state(0, 1));
        }
        mc::settle_for(20 * SEC);
        let d = at.get();
        check!(d.len() == 1, "node-down", "{}: reported at {:?}", how, d);
        let t = d[0] - begin;
        let ok = if how == 1 { t >= limit && t <= limit + 2 } else { t == 0 };
        check!(ok, "node-down-time", "{}: reported after {} ms", how, t);
        check!(!connected(0, 1), "state", "{:?}", state(0, 1));
        check!(on(1, || !Node::list_by_state(NodeState::Connected).contains(&node_of(0))), "state", "");
        quiet_conn();
        mc::outcome((how, limit));
    })
}

/// Both nodes connect to each other at the same time.
fn simultaneous() -> Scenario {
    sc("simultaneous-connect", (1, 2), 2).run(|| {
        mc::settle();
        mc::explore();
        let later = mc::choose(2) == 1;
        mc::setup_begin();
        up(0);
        up(1);
        mc::settle();
        mc::setup_end();
        proc_on(0, "c0", async { Node::connect(node_of(1)) });
        if later {
            // Not before the other one has won.
            mc::settle();
        }
        proc_on(1, "c1", async { Node::connect(node_of(0)) });
        mc::settle();
        mc::settle_for(SEC);
        let (s, t) = (norm(state(0, 1)), norm(state(1, 0)));
        let when = if later { "one after the other" } else { "at the same time" };
        check!(s == "connected" && t == "connected", "simultaneous-connect", "the nodes connected to each other {}, they are {} and {}", when, s, t);
        quiet_conn();
        mc::outcome((later, s, t));
    })
}

/// A second connection of a node that is connected already: it is refused, at once, and nothing else happens.
fn duplicate() -> Scenario {
    sc("duplicate", (1, 2), 4).run(|| {
        mc::settle();
        mc::explore();
        let (before, while_it_lasts) = (mc::choose(2) == 1, mc::choose(2) == 1);
        mc::setup_begin();
        let (a, b) = pair();
        let hello = hello_of(1);
        let log = Shared::new(vec![]);
        let p = proc_on(1, "p", collect(log.clone()));
        let rp = move_to(1, 0, &p);
        let b0 = b.pid_on(0);
        a.call(trap);
        let (r, m) = a
            .call(move || {
                Process::link(b0);
                (Node::monitor(node_of(1)), Process::monitor(b0))
            })
            .unwrap();
        mc::settle();
        mc::setup_end();
        let mut raw = Raw::connect(addr(0));
        if before {
            mc::settle();
        }
        raw.send(&hello);
        if while_it_lasts {
            a.post(move || async move {
                for i in 0..3 {
                    Process::send(rp, M::N(i));
                }
            });
        }
        mc::settle();
        let closed = raw.read().1;
        check!(closed, "not-closed", "the second connection is still open");
        check!(connected(0, 1) && connected(1, 0), "state", "{:?} {:?}", state(0, 1), state(1, 0));
        if !while_it_lasts {
            a.call(move || {
                for i in 0..3 {
                    Process::send(rp, M::N(i));
                }
            });
            mc::settle();
        }
        check!(log.get() == [Ev::Msg(M::N(0)), Ev::Msg(M::N(1)), Ev::Msg(M::N(2))], "messages", "{:?}", log.get());
        mc::settle_for(60 * SEC);
        check!(connected(0, 1) && connected(1, 0), "state", "later: {:?} {:?}", state(0, 1), state(1, 0));
        check!(a.events().is_empty(), "reported", "");
        on(1, || b.a.finish());
        mc::settle();
        let e = a.events();
        check!(e.len() == 2 && !e.iter().any(|e| matches!(e, Ev::NodeDown(..))), "reports", "{:?} {:?} {:?}", e, r, m);
        let mut quiet = CONN.to_vec();
        quiet.push("called `Option::unwrap()` on a `None` value");
        no_stray_panics(&quiet);
        mc::outcome((before, while_it_lasts));
    })
}

/// The local node is stopped, and started again at once at another address: the old one's end leaves the new one alone.
fn restart() -> Scenario {
    sc("restart-elsewhere", (1, 2), 8).run(|| {
        mc::setup_begin();
        let (a, b) = pair();
        let log = Shared::new(vec![]);
        let p = proc_on(0, "p", collect(log.clone()));
        on(0, || Process::register(p, "p").unwrap());
        mc::settle();
        mc::setup_end();
        mc::explore();
        let (apart, lost, rename, pause) = (mc::choose(2) == 1, mc::choose(2) == 1, mc::choose(2) == 1, mc::choose(2) == 1);
        if apart {
            a.call(move || if lost { Node::forget(node_of(1)) } else { Node::disconnect(node_of(1)) });
            mc::settle();
        }
        let n = if rename { "m0" } else { name(0) };
        let new = Node::from((n, addr(3)));
        a.post(move || async move {
            Node::stop();
            if pause {
                tokio::task::yield_now().await;
            }
            Node::start(n, opts(3));
        });
        mc::settle();
        mc::settle_for(SEC);
        check!(on(0, Node::alive), "restarted", "the local node that was started isn't alive");
        check!(mcnet::listening().contains(&addr(3)) && !mcnet::listening().contains(&addr(0)), "restarted", "listening: {:?}", mcnet::listening());
        check!(on(0, Node::list).is_empty(), "forgotten", "{:?}", on(0, Node::list));
        check!(state(1, 0) != Some(NodeState::Connected), "old-connected", "{:?}", state(1, 0));
        let m = new.clone();
        b.call(move || {
            Node::connect(m.clone());
            Process::send(("p", m), M::N(1));
        });
        mc::settle();
        mc::settle_for(SEC);
        check!(on(1, || Node::list_by_state(NodeState::Connected)) == vec![new.clone()], "reconnect", "{:?}", on(1, || Node::list_by_state(NodeState::Connected)));
        check!(connected(0, 1), "reconnect", "{:?}", state(0, 1));
        check!(log.get() == vec![Ev::Msg(M::N(1))], "message", "{:?}", log.get());
        a.call(move || Process::send(("q", node_of(1)), M::N(2)));
        quiet_conn();
        mc::outcome((apart, lost, rename, pause, norm(state(1, 0))));
    })
}
