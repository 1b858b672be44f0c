//! C32: process information, lists and names say what is so.

use crate::dist::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![history(), churn(), crowd(), query_from_anyone(), far()]
}

const NAMES: [&str; 2] = ["x", "y"];

/// What is so, kept by hand.
#[derive(Default)]
struct Model {
    alive: [bool; 3],
    trap: [bool; 3],
    name: [Option<&'static str>; 3],
    links: BTreeSet<(usize, usize)>,
    /// Who monitors whom, under which reference.
    mons: Vec<(usize, usize, Reference)>,
    queue: [usize; 3],
    aliases: Vec<(Reference, usize)>,
}

fn key(i: usize, j: usize) -> (usize, usize) {
    (i.min(j), i.max(j))
}

impl Model {
    fn end(&mut self, i: usize, r: ExitR) {
        self.alive[i] = false;
        self.name[i] = None;
        self.aliases.retain(|a| a.1 != i);
        // Monitors of others are told, its own are gone.
        self.mons.retain(|m| m.0 != i);
        for m in std::mem::take(&mut self.mons) {
            if m.1 == i {
                self.queue[m.0] += 1;
            } else {
                self.mons.push(m);
            }
        }
        for j in 0..3 {
            if self.links.remove(&key(i, j)) && self.alive[j] {
                self.signal(j, r.clone());
            }
        }
    }
    fn signal(&mut self, j: usize, r: ExitR) {
        if !self.alive[j] {
        } else if self.trap[j] {
            self.queue[j] += 1;
        } else if r != ExitR::Normal {
            self.end(j, r);
        }
    }
}

fn compare(p: &[Agent], m: &Model, extra: &[Pid], trail: &[String]) {
    let mut want: Vec<Pid> = (0..3).filter(|i| m.alive[*i]).map(|i| p[i].pid).chain(extra.iter().copied()).collect();
    want.sort();
    let mut got = Process::list();
    got.sort();
    check!(got == want, "list", "after {:?}: list {:?}, running {:?}", trail, got, want);
    let mut names = Process::registered();
    names.sort();
    let mut want: Vec<String> = m.name.iter().flatten().map(|s| s.to_string()).collect();
    want.sort();
    check!(names == want, "registered", "after {:?}: {:?}, expected {:?}", trail, names, want);
    for n in NAMES {
        let w = (0..3).find(|i| m.name[*i] == Some(n)).map(|i| p[i].pid);
        check!(Process::whereis(n) == w, "whereis", "after {:?}: {} is {:?}, expected {:?}", trail, n, Process::whereis(n), w);
    }
    for i in 0..3 {
        check!(Process::alive(p[i].pid) == m.alive[i], "alive", "after {:?}: {} alive {}", trail, i, Process::alive(p[i].pid));
        let Some(info) = Process::info(p[i].pid) else {
            check!(!m.alive[i], "info-none", "after {:?}: no info about {}", trail, i);
            continue;
        };
        check!(m.alive[i], "info-ended", "after {:?}: info about {}, which has ended: {:?}", trail, i, info);
        check!(info.registered_name.as_deref() == m.name[i], "info-name", "after {:?}: {}: {:?}, expected {:?}", trail, i, info, m.name[i]);
        check!(info.trap_exit == m.trap[i], "info-trap", "after {:?}: {}: {:?}, expected {}", trail, i, info, m.trap[i]);
        check!(info.message_queue_len == m.queue[i], "info-queue", "after {:?}: {}: {:?}, expected {}", trail, i, info, m.queue[i]);
        let mut l = info.links.clone();
        l.sort();
        let mut w: Vec<Pid> = (0..3).filter(|j| m.links.contains(&key(i, *j))).map(|j| p[j].pid).collect();
        w.sort();
        check!(l == w, "info-links", "after {:?}: {}: {:?}, expected {:?}", trail, i, info, w);
        let mut l = info.monitored_by.clone();
        l.sort();
        let mut w: Vec<Pid> = m.mons.iter().filter(|m| m.1 == i).map(|m| p[m.0].pid).collect();
        w.sort();
        check!(l == w, "info-monitors", "after {:?}: {}: {:?}, expected {:?}", trail, i, info, w);
    }
}

/// Every history of registering, linking, monitoring, sending, trapping and ending among three processes; after each step everything that can be asked is what it should be.
fn history() -> Scenario {
    let depth = if thorough() { 5 } else { 4 };
    seq("history", 1000).run(move || {
        mc::settle();
        mc::explore();
        let p = [Agent::spawn("p0"), Agent::spawn("p1"), Agent::spawn("p2")];
        let mut m = Model { alive: [true; 3], ..Default::default() };
        mc::settle();
        let mut trail: Vec<String> = Vec::new();
        for _ in 0..depth {
            let op = mc::choose(22);
            if op == 21 {
                break;
            }
            // The process that acts, and the one acted upon.
            let (i, j) = match op {
                0 | 6 | 8 | 10 | 12 | 14 | 16 | 17 | 18 => (0, 1),
                1 | 4 | 7 | 9 | 11 | 13 | 15 | 19 => (1, 0),
                2 | 3 => (2, 0),
                5 => (2, 1),
                _ => (2, 2),
            };
            if !m.alive[i] {
                return;
            }
            let (me, pid) = (p[i].pid, p[j].pid);
            let what = match op {
                0 | 1 | 2 => {
                    // 2: a third party registers process 0 under another name.
                    let (who, n) = if op == 2 { (0, "y") } else { (i, "x") };
                    let target = p[who].pid;
                    let r = p[i].call(move || Process::register(target, n).is_ok()).unwrap();
                    let ok = m.alive[who] && (m.name[who] == Some(n) || (m.name[who].is_none() && !m.name.contains(&Some(n))));
                    check!(r == ok, "register", "after {:?}: registering {} as {}: {}", trail, who, n, r);
                    if ok {
                        m.name[who] = Some(n);
                    }
                    format!("{} registered as {}", who, n)
                }
                3 => {
                    let Some(k) = m.name.iter().position(|n| *n == Some("x")) else { return };
                    p[i].call(|| Process::unregister("x"));
                    m.name[k] = None;
                    "x unregistered".into()
                }
                4 | 5 | 6 => {
                    p[i].call(move || Process::link(pid));
                    if m.alive[j] {
                        m.links.insert(key(i, j));
                    } else {
                        m.signal(i, "noproc".into());
                    }
                    format!("{} linked to {}", i, j)
                }
                7 => {
                    if !m.links.contains(&key(i, j)) {
                        return;
                    }
                    p[i].call(move || Process::unlink(pid));
                    m.links.remove(&key(i, j));
                    format!("{} unlinked from {}", i, j)
                }
                8 | 9 => {
                    let r = p[i].call(move || Process::monitor(pid)).unwrap();
                    if m.alive[j] {
                        m.mons.push((i, j, r));
                    } else {
                        m.queue[i] += 1;
                    }
                    format!("{} monitors {}", i, j)
                }
                10 => {
                    let r = p[i].call(|| Process::monitor("x")).unwrap();
                    match m.name.iter().position(|n| *n == Some("x")) {
                        Some(k) => m.mons.push((i, k, r)),
                        None => m.queue[i] += 1,
                    }
                    format!("{} monitors x", i)
                }
                11 => {
                    let r = p[i].call(move || Process::monitor_alias(pid, false)).unwrap();
                    if m.alive[j] {
                        m.mons.push((i, j, r));
                    } else {
                        m.queue[i] += 1;
                    }
                    format!("{} monitors {} with an alias", i, j)
                }
                12 => {
                    let Some(k) = m.mons.iter().position(|m| m.0 == i) else { return };
                    let r = m.mons.remove(k).2;
                    p[i].call(move || Process::demonitor(r));
                    format!("{} demonitors {:?}", i, k)
                }
                13 => {
                    let r = p[i].call(|| Process::alias(false)).unwrap();
                    m.aliases.push((r, i));
                    format!("{} makes an alias", i)
                }
                14 => {
                    p[i].call(move || Process::send(pid, M::Go));
                    for (a, _) in &m.aliases {
                        let a = *a;
                        p[i].call(move || Process::send(a, M::Go));
                    }
                    m.queue[j] += m.alive[j] as usize;
                    for (_, k) in &m.aliases {
                        m.queue[*k] += 1;
                    }
                    format!("{} sends to {} and its aliases", i, j)
                }
                15 => {
                    p[i].exec(|| async { drain::<M>().await.len() });
                    m.queue[i] = 0;
                    format!("{} receives everything", i)
                }
                16 | 19 => {
                    let on = !m.trap[i];
                    p[i].call(move || Process::set_flags(if on { ProcessFlags::TRAP_EXIT } else { ProcessFlags::empty() }));
                    m.trap[i] = on;
                    format!("{} traps {}", i, on)
                }
                17 => {
                    p[i].call(move || Process::exit(pid, ExitReason::from("bye")));
                    m.signal(j, "bye".into());
                    format!("{} signals {}", i, j)
                }
                18 => {
                    p[i].finish();
                    m.end(i, ExitR::Normal);
                    format!("{} ends", i)
                }
                20 => {
                    p[i].call(move || Process::exit(me, ExitReason::Kill));
                    m.end(i, ExitR::Kill);
                    format!("{} kills itself", i)
                }
                _ => return,
            };
            trail.push(what);
            mc::settle();
            compare(&p, &m, &[], &trail);
        }
        no_stray_panics(&[]);
        mc::outcome(trail);
    })
}

/// While processes come and go, those that stay are always listed once, those that have ended are not, and information about a process fits one moment.
fn churn() -> Scenario {
    sc("churn", (2, 3), 2).run(|| {
        mc::setup_begin();
        let stays = [Agent::spawn("stay0"), Agent::spawn("stay1")];
        let (a, b) = (stays[0].pid, stays[1].pid);
        stays[0].call(move || {
            Process::register(a, "stay").unwrap();
            Process::link(b);
        });
        let ended = Agent::spawn("ended");
        ended.finish();
        let goes = Agent::spawn("goes");
        let g = goes.pid;
        goes.call(move || Process::register(g, "goes").unwrap());
        mc::settle();
        mc::setup_end();
        mc::explore();
        let asker = Agent::spawn("asker");
        let seen: Shared<Vec<(bool, bool, usize)>> = Shared::new(Vec::new());
        let (s2, me, gone) = (seen.clone(), asker.pid, ended.pid);
        asker.post(move || async move {
            for _ in 0..2 {
                let l = Process::list();
                let set: BTreeSet<Pid> = l.iter().copied().collect();
                check!(set.len() == l.len(), "list-twice", "{:?}", l);
                check!([a, b, me].iter().all(|p| set.contains(p)), "list-missing", "{:?} does not have {:?}", l, [a, b, me]);
                check!(!set.contains(&gone), "list-ended", "{:?} has {:?}", l, gone);
                let n: Vec<String> = Process::registered();
                check!(n.iter().filter(|n| *n == "stay").count() == 1, "names-missing", "{:?}", n);
                check!(n.iter().filter(|n| *n == "goes").count() <= 1, "names-twice", "{:?}", n);
                let i = Process::info(a).unwrap();
                check!(i.registered_name.as_deref() == Some("stay") && i.links.contains(&b), "info", "{:?}", i);
                check!(Process::info(gone).is_none(), "info-ended", "");
                let i = Process::info(g);
                if let Some(i) = &i {
                    check!(i.registered_name.as_deref() == Some("goes"), "info-name", "{:?}", i);
                }
                s2.with(|s| s.push((set.contains(&g), i.is_some(), l.len())));
            }
        });
        goes.finish();
        stays[1].post(move || async move {
            let c = Process::spawn_link(async {});
            Process::monitor(a);
            Process::send(a, M::Go);
            let _ = c;
        });
        mc::settle();
        let s = seen.get();
        check!(s.len() == 2, "hang", "the asking process did not come to an end");
        check!(!s.windows(2).any(|w| (!w[0].0 || !w[0].1) && (w[1].0 || w[1].1)), "ended-returns", "{:?}", s);
        check!(Process::info(a).unwrap().message_queue_len == 1 && Process::info(a).unwrap().monitored_by == [b], "info-after", "{:?}", Process::info(a));
        check!(Process::info(a).unwrap().links == [b] && Process::info(b).unwrap().links == [a], "info-links", "{:?}", Process::info(b));
        no_stray_panics(&[]);
        mc::outcome(s);
    })
}

/// Many of everything.
fn crowd() -> Scenario {
    seq("crowd", 4).steps(10_000_000).run(|| {
        mc::settle();
        mc::explore();
        let n = [2, 9, 40, if thorough() { 2000 } else { 300 }][mc::choose(4)];
        let hub = Agent::spawn("hub");
        let h = hub.pid;
        hub.call(trap);
        let p: Vec<Agent> = (0..n).map(|_| Agent::spawn("p")).collect();
        for (i, a) in p.iter().enumerate() {
            let me = a.pid;
            a.call(move || {
                Process::register(me, format!("name{}", i)).unwrap();
                Process::link(h);
                Process::monitor(h);
                Process::send(h, M::N(i as u32));
            });
        }
        let all = |keep: &dyn Fn(usize) -> bool| -> Vec<Pid> {
            let mut v: Vec<Pid> = p.iter().enumerate().filter(|(i, _)| keep(*i)).map(|(_, a)| a.pid).collect();
            v.sort();
            v
        };
        let look = |keep: &dyn Fn(usize) -> bool, queue: usize| {
            let i = Process::info(h).unwrap();
            let w = all(keep);
            let (mut l, mut m, mut list, mut names) = (i.links.clone(), i.monitored_by.clone(), Process::list(), Process::registered());
            l.sort();
            m.sort();
            names.sort();
            list.retain(|p| *p != h);
            list.sort();
            let mut wn: Vec<String> = (0..n).filter(|i| keep(*i)).map(|i| format!("name{}", i)).collect();
            wn.sort();
            check!(l == w, "links", "{} of {}", l.len(), w.len());
            check!(m == w, "monitored-by", "{} of {}", m.len(), w.len());
            check!(list == w, "list", "{} of {}", list.len(), w.len());
            check!(names == wn, "registered", "{} of {}", names.len(), wn.len());
            check!(i.message_queue_len == queue, "queue", "{} of {}", i.message_queue_len, queue);
        };
        look(&|_| true, n);
        for (i, a) in p.iter().enumerate() {
            if i % 3 == 0 {
                a.finish();
            }
        }
        mc::settle();
        let ended = (n + 2) / 3;
        look(&|i| i % 3 != 0, n + ended);
        check!(hub.exec(|| async { drain::<M>().await.len() }) == Some(n + ended), "drain", "");
        look(&|i| i % 3 != 0, 0);
        no_stray_panics(&[]);
        mc::outcome(n);
    })
}

/// A process may ask about itself, others, and from any task; asking changes nothing.
fn query_from_anyone() -> Scenario {
    sc("questions", (1, 2), 1).run(|| {
        mc::setup_begin();
        let a = Agent::spawn("a");
        let b = Agent::spawn("b");
        let (pa, pb) = (a.pid, b.pid);
        a.call(move || {
            Process::link(pb);
            Process::monitor(pb);
            Process::send(pa, M::Go);
            trap();
        });
        mc::setup_end();
        mc::explore();
        let ok = Shared::new(0);
        for who in 0..3 {
            let ok = ok.clone();
            let q = move || {
                let (x, y) = (Process::info(pa).unwrap(), Process::info(pb).unwrap());
                check!(x.links == [pb] && y.links == [pa] && y.monitored_by == [pa] && x.monitored_by.is_empty() && x.trap_exit && !y.trap_exit, "info", "{:?} {:?}", x, y);
                check!(x.message_queue_len == 1 && y.message_queue_len == 0, "queue", "{:?} {:?}", x, y);
                ok.with(|o| *o += 1);
            };
            match who {
                0 => a.post(move || async move { q() }),
                1 => b.post(move || async move { q() }),
                _ => task("outside", async move { q() }),
            }
        }
        mc::settle();
        check!(ok.get() == 3, "hang", "{}", ok.get());
        b.finish();
        mc::settle();
        check!(a.exec(events).unwrap().len() == 3, "disturbed", "");
        no_stray_panics(&[]);
        mc::outcome(0);
    })
}

/// Every history of links, monitors, ends and losses of the connection between processes of two nodes: information about either shows exactly what is left.
fn far() -> Scenario {
    let depth = if thorough() { 5 } else { 4 };
    seq("far", 100).run(move || {
        mc::settle();
        let (a, b) = pair();
        a.call(trap);
        b.call(trap);
        let (a1, b0) = (a.pid_on(1), b.pid_on(0));
        mc::explore();
        let (mut linked, mut mons, mut alive) = (false, Vec::new(), [true; 2]);
        let mut trail = vec![];
        for _ in 0..depth {
            let op = mc::choose(11);
            if op == 10 {
                break;
            }
            let by_a = [0, 2, 4, 5, 7, 8].contains(&op);
            if !alive[!by_a as usize] {
                return;
            }
            match op {
                0 => {
                    a.call(move || Process::link(b0));
                    linked = alive[1];
                }
                1 => {
                    b.call(move || Process::link(a1));
                    linked = alive[0];
                }
                2 | 3 if !linked => return,
                2 => {
                    a.call(move || Process::unlink(b0));
                    linked = false;
                }
                3 => {
                    b.call(move || Process::unlink(a1));
                    linked = false;
                }
                4 => {
                    let r = a.call(move || Process::monitor(b0)).unwrap();
                    if alive[1] {
                        mons.push(r);
                    }
                }
                5 => {
                    let Some(r) = mons.pop() else { return };
                    a.call(move || Process::demonitor(r));
                }
                6 => {
                    on(1, || b.a.finish());
                    (alive[1], linked) = (false, false);
                    mons.clear();
                }
                7 => {
                    a.call(|| Node::disconnect(node_of(1)));
                    linked = false;
                    mons.clear();
                }
                8 => {
                    on(0, || a.a.finish());
                    (alive[0], linked) = (false, false);
                    mons.clear();
                }
                _ => {
                    let me = b.pid;
                    b.call(move || Process::exit(me, ExitReason::Kill));
                    (alive[1], linked) = (false, false);
                    mons.clear();
                }
            }
            trail.push(op);
            mc::settle();
            let (x, y) = (on(0, || Process::info(a.pid)), on(1, || Process::info(b.pid)));
            check!(x.is_some() == alive[0] && y.is_some() == alive[1], "info-none", "{:?}: {:?} {:?}", trail, x, y);
            if let Some(x) = x {
                check!(x.links == if linked { vec![b0] } else { vec![] }, "far-links", "{:?}: {:?} of a, linked: {}", trail, x, linked);
            }
            if let Some(y) = y {
                check!(y.links == if linked { vec![a1] } else { vec![] }, "far-links", "{:?}: {:?} of b, linked: {}", trail, y, linked);
                check!(y.monitored_by == vec![a1; mons.len()], "far-monitors", "{:?}: {:?} of b, monitors: {}", trail, y, mons.len());
            }
        }
        quiet_conn();
        mc::outcome(trail);
    })
}
