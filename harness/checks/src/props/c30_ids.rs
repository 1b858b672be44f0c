//! C30: identifiers mean the same process, alias or node wherever they have been sent.

use crate::dist::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![travel(), histories(), no_node(), values(), namesakes()]
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct V {
    p: Pid,
    r: Reference,
    n: Node,
    d: Vec<Dest>,
    o: Option<(Pid, Box<V>)>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum Go {
    V(V, Vec<usize>),
}

/// Three connected nodes, with as many processes each: the same numbers on all of them.
fn mesh() -> Vec<(Pid, Reference, Shared<Vec<Ev>>)> {
    for n in 0..3 {
        up(n);
    }
    mc::settle();
    let ag: Vec<Rem> = (0..3).map(|n| Rem::spawn(n, "ag")).collect();
    let mut out = vec![];
    for n in 0..3 {
        let (log, al) = (Shared::new(vec![]), Shared::new(None));
        let (l2, a2) = (log.clone(), al.clone());
        let pid = proc_on(n, "target", async move {
            a2.set(Some(Process::alias(false)));
            collect(l2).await;
        });
        on(n, || Process::register(pid, "target").unwrap());
        mc::settle();
        out.push((pid, al.get().unwrap(), log));
    }
    check!(out[0].0 == out[1].0 && out[1].0 == out[2].0, "setup", "the numbers of processes should be the same on all nodes: {:?} {:?}", out[0].0, out[1].0);
    check!(out[0].1 == out[1].1, "setup", "references");
    connect(&ag[0], 1);
    connect(&ag[1], 2);
    connect(&ag[2], 0);
    out
}

/// Values travel over every route.
fn travel() -> Scenario {
    seq("travel", 20).run(|| {
        mc::settle();
        let t = mesh();
        let end: Shared<Vec<(usize, V)>> = Shared::new(vec![]);
        for n in 0..3 {
            let e2 = end.clone();
            let pid = proc_on(n, "fwd", async move {
                loop {
                    if let Message::User(Go::V(v, mut route)) = Process::receive::<Go>().await {
                        match route.pop() {
                            None => e2.push((n, v)),
                            Some(m) if m == n => {
                                // Several destinations here: as bytes.
                                Process::send(vec![Dest::from("nobody"), Dest::from("fwd")], Go::V(v, route))
                            }
                            Some(m) => Process::send(("fwd", node_of(m)), Go::V(v, route)),
                        }
                    }
                }
            });
            on(n, || Process::register(pid, "fwd").unwrap());
        }
        mc::settle();
        mc::explore();
        let origin = mc::choose(3);
        let hops = 1 + mc::choose(if thorough() { 5 } else { 4 });
        let mut route: Vec<usize> = (0..hops).map(|_| mc::choose(3)).collect();
        let (p, r, log) = t[origin].clone();
        let mk = |p: Pid, r: Reference, n: Node| {
            let d = vec![Dest::from(p), Dest::from(r), Dest::from(("target", n.clone()))];
            V { p, r, n: n.clone(), d: d.clone(), o: Some((p, Box::new(V { p, r, n, d, o: None }))) }
        };
        let v = mk(p, r, Node::Local);
        let r2 = route.clone();
        proc_on(origin, "start", async move { Process::send("fwd", Go::V(v, r2)) });
        mc::settle();
        let got = end.get();
        check!(got.len() == 1, "lost", "from {} over {:?}: {:?}", origin, route, got);
        let (e, v) = got.into_iter().next().unwrap();
        route.reverse();
        check!(e == *route.last().unwrap(), "lost", "{}", e);
        let want = if e == origin { mk(p, r, Node::Local) } else { mk(move_to(origin, e, &p), move_to(origin, e, &r), node_of(origin)) };
        check!(v == want, "changed", "from {} over {:?}: {:?} instead of {:?}", origin, route, v, want);
        check!(v.p.is_local() == (e == origin) && v.r.is_local() == (e == origin), "changed", "{:?}", v);
        // It leads back.
        proc_on(e, "use", async move {
            Process::send(v.p, M::N(1));
            Process::send(v.r, M::N(2));
            for (i, d) in v.d.into_iter().enumerate() {
                Process::send(d, M::N(3 + i as u32));
            }
            Process::monitor(v.p);
        });
        mc::settle();
        for (n, (_, _, l)) in t.iter().enumerate() {
            let want: Vec<Ev> = if n == origin { (1..6).map(|i| Ev::Msg(M::N(i))).collect() } else { vec![] };
            check!(l.get() == want, "delivery", "from {} over {:?}: node {} received {:?}", origin, route, n, l.get());
        }
        let _ = log;
        no_stray_panics(&[]);
        mc::outcome((origin, route));
    })
}

/// Identifiers kept while nodes are forgotten, renamed, stopped and connected again.
fn histories() -> Scenario {
    let depth = if thorough() { 6 } else { 5 };
    seq("histories", 1000).run(move || {
        mc::settle();
        let t = mesh();
        let a = Rem::spawn(0, "a");
        let b = Rem::spawn(1, "b");
        mc::settle();
        mc::explore();
        // What node 0 holds: identifier, name of the node, still known.
        let mut held: Vec<(Pid, usize, bool)> = vec![];
        let mut refs: Vec<Reference> = vec![];
        // Node 1: which name it has, whether it is up; whether 0 is connected to it.
        let (mut nm, mut alive, mut conn) = (0, true, true);
        let names = ["n1", "m1"];
        let mut trail = vec![];
        for _ in 0..depth {
            let op = mc::choose(6);
            trail.push(op);
            let this = Node::from((names[nm], addr(1)));
            match op {
                0 => {
                    a.call(move || Node::forget(this));
                    for h in held.iter_mut() {
                        h.2 &= h.1 != nm;
                    }
                    conn = false;
                }
                1 => {
                    a.call(move || Node::connect(this));
                    conn = alive;
                }
                2 => {
                    if alive {
                        b.call(|| Node::stop());
                    } else {
                        on(1, || Node::start(names[nm], opts(1)));
                    }
                    alive = !alive;
                    conn = false;
                }
                3 => {
                    if alive {
                        continue;
                    }
                    nm = 1 - nm;
                }
                4 => {
                    if !alive {
                        continue;
                    }
                    held.push((move_to(1, 0, &t[1].0), nm, true));
                    refs.push(move_to(1, 0, &t[1].1));
                }
                _ => {
                    if !conn {
                        continue;
                    }
                    // By message.
                    let (p, got) = (t[1].0, Shared::new(None));
                    let g2 = got.clone();
                    let inbox = proc_on(0, "inbox", async move {
                        if let Ev::Msg(M::P(p, 5)) = ev(Process::receiver().for_message::<M>().receive().await) {
                            g2.set(Some(p));
                        }
                    });
                    on(0, || Process::register(inbox, "inbox").unwrap());
                    b.call(move || Process::send(("inbox", node_of(0)), M::P(p, 5)));
                    mc::settle();
                    let p = got.get();
                    check!(p.is_some(), "lost", "after {:?}", trail);
                    held.push((p.unwrap(), nm, true));
                    refs.push(move_to(1, 0, &t[1].1));
                }
            }
            mc::settle();
            check!(!conn || on(0, || Node::list_by_state(NodeState::Connected).contains(&Node::from((names[nm], addr(1))))), "state", "after {:?}", trail);
            for x in &held {
                for y in &held {
                    check!((x.0 == y.0) == ((x.1, x.2) == (y.1, y.2)) || (!x.2 && !y.2), "equality", "after {:?}: {:?} {:?}", trail, x, y);
                }
            }
            for l in &t {
                l.2.set(vec![]);
            }
            let mut want = vec![];
            for (i, (p, n, valid)) in held.iter().copied().enumerate() {
                a.call(move || Process::send(p, M::N(i as u32)));
                if valid && conn && n == nm {
                    want.push(Ev::Msg(M::N(i as u32)));
                }
            }
            mc::settle();
            for n in 0..3 {
                let want = if n == 1 { want.clone() } else { vec![] };
                check!(t[n].2.get() == want, "delivery", "after {:?} with {:?}: node {} received {:?} instead of {:?}", trail, held, n, t[n].2.get(), want);
            }
            // They are at home on the node of their name and address only.
            for (r, (p, n, valid)) in refs.iter().zip(held.iter().copied()) {
                if alive && valid {
                    let (p, r) = (move_to(0, 1, &p), move_to(0, 1, r));
                    check!(p.is_local() == (n == nm) && r.is_local() == (n == nm), "at-home", "after {:?}: {:?} {:?} of {} on {}", trail, p, r, names[n], names[nm]);
                }
            }
            // A third node understands what is still known, and can give it back.
            for (p, _, valid) in held.iter().copied() {
                let third = move_to(0, 2, &p);
                check!(third.is_remote() && (!valid || move_to(2, 0, &third) == p), "third", "after {:?}: {:?}", trail, third);
            }
        }
        quiet_conn();
        mc::outcome(trail);
    })
}

/// Without a local node: a node stays the node it was.
fn no_node() -> Scenario {
    seq("without-node", 2).run(|| {
        mc::settle();
        mc::explore();
        let several = mc::choose(2) == 1;
        let got: Shared<Vec<Node>> = Shared::new(vec![]);
        let mut pids = vec![];
        for _ in 0..2 {
            let g2 = got.clone();
            pids.push(proc("p", async move {
                loop {
                    if let Message::User(n) = Process::receive::<Node>().await {
                        g2.push(n);
                    }
                }
            }));
        }
        mc::settle();
        let nodes = [node_of(1), Node::Local, node_of(2)];
        let (n2, p2) = (nodes.clone(), pids.clone());
        proc("s", async move {
            for n in n2 {
                if several {
                    Process::send(&p2[..], n);
                } else {
                    for p in &p2 {
                        Process::send(*p, n.clone());
                    }
                }
            }
        });
        mc::settle();
        let mut g = got.get();
        g.sort();
        let mut want: Vec<Node> = nodes.iter().chain(nodes.iter()).cloned().collect();
        want.sort();
        check!(g == want, "changed", "received {:?} instead of {:?}", g, want);
        no_stray_panics(&[]);
        mc::outcome(several);
    })
}

/// Text forms and comparisons of nodes: what is written is what is read.
fn values() -> Scenario {
    seq("values", 20).run(|| {
        mc::settle();
        mc::explore();
        let names = ["n", "a b", "x-1", "\u{e9}\u{4e2d}", "", "local"];
        let addrs = ["127.0.0.1:1", "0.0.0.0:65535", "[::1]:80", "[2001:db8::1]:443"];
        let (i, j) = (mc::choose(names.len() * addrs.len()), mc::choose(names.len() * addrs.len()));
        let mk = |k: usize| (names[k % names.len()], addrs[k / names.len()].parse::<SocketAddr>().unwrap());
        let (x, y) = (mk(i), mk(j));
        let (nx, ny) = (Node::from(x), Node::from(y));
        check!((nx == ny) == (i == j), "equality", "{:?} {:?}", nx, ny);
        check!((nx == y) == (i == j), "equality", "{:?} {:?}", nx, y);
        let text = format!("{}@{}", y.0, y.1);
        check!((nx == text) == (i == j), "equality", "{:?} {:?}", nx, text);
        check!((nx == text.as_str()) == (i == j), "equality", "{:?} {:?}", nx, text);
        check!(Node::from(text.as_str()) == ny && Node::from(text.clone()) == ny, "text", "{:?} {:?}", Node::from(text.as_str()), ny);
        check!(ny.name() == Some(y.0) && ny.address() == Some(y.1) && ny.is_remote() && !ny.is_local(), "parts", "{:?}", ny);
        check!(nx != "local" && Node::from("local") == Node::Local && Node::Local == "local" && Node::Local != text.as_str(), "local", "{:?}", nx);
        // Destinations of the same name on different nodes are different.
        check!((Dest::from(("p", nx.clone())) == Dest::from(("p", ny.clone()))) == (i == j), "destinations", "");
        check!(Dest::from(("p", nx.clone())).is_remote() && Dest::from("p").is_local(), "destinations", "");
        mc::outcome((i, j));
    })
}

/// Nodes of the same name at different addresses.
fn namesakes() -> Scenario {
    seq("namesakes", 3).run(|| {
        mc::settle();
        mc::explore();
        let names = [["n", "n", "m"], ["n", "n", "n"], ["n", "N", "n "]][mc::choose(3)];
        let of = move |n: usize| Node::from((names[n], addr(n)));
        for n in 0..3 {
            on(n, || Node::start(names[n], opts(n)));
        }
        mc::settle();
        let ag: Vec<Rem> = (0..3).map(|n| Rem::spawn(n, "ag")).collect();
        let mut t = vec![];
        for n in 0..3 {
            let (log, al) = (Shared::new(vec![]), Shared::new(None));
            let (l2, a2) = (log.clone(), al.clone());
            let pid = proc_on(n, "target", async move {
                a2.set(Some(Process::alias(false)));
                collect(l2).await;
            });
            mc::settle();
            on(n, || Process::register(pid, "target").unwrap());
            t.push((pid, al.get().unwrap(), log));
        }
        for n in 0..3 {
            let to = of((n + 1) % 3);
            ag[n].call(move || Node::connect(to));
            mc::settle();
        }
        for i in 0..3 {
            for j in 0..3 {
                let c = on(i, || Node::list_by_state(NodeState::Connected).contains(&of(j)));
                check!(c == (i != j), "state", "{:?}: {} {}", names, i, j);
                for via in 0..3 {
                    // From its home over a third node.
                    let (p, r) = (move_to(via, i, &move_to(j, via, &t[j].0)), move_to(via, i, &move_to(j, via, &t[j].1)));
                    check!(p.is_local() == (i == j) && r.is_local() == (i == j), "at-home", "{:?}: {:?} {:?} of {} on {}", names, p, r, j, i);
                    let n = of(j);
                    ag[i].call(move || {
                        Process::send(p, M::N(1));
                        Process::send(r, M::N(2));
                        if i != j {
                            Process::send(("target", n), M::N(3));
                        }
                    });
                    mc::settle();
                    for k in 0..3 {
                        let want: Vec<Ev> = if k == j { (1..if i != j { 4 } else { 3 }).map(|m| Ev::Msg(M::N(m))).collect() } else { vec![] };
                        check!(t[k].2.get() == want, "delivery", "{:?}: from {} to {}: {} received {:?}", names, i, j, k, t[k].2.get());
                        t[k].2.set(vec![]);
                    }
                }
            }
        }
        quiet_conn();
        mc::outcome(names);
    })
}
