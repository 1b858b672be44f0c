//! C33: an application's console server is there from start to end, and tells what is so.

use crate::dist::*;
use crate::sup::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![answers(), remote(), kept(), busy()]
}

const NAME: &str = "$hydra_console";

struct App(AssertSend<Ctl>);

impl Application for App {
    fn config() -> ApplicationConfig {
        ApplicationConfig::new()
    }
    fn start(&self) -> impl Future<Output = Result<Pid, ExitReason>> + Send {
        let c = self.0 .0.clone();
        AssertSend(async move { c.start("main", Kind::Plain).await })
    }
}

fn run(n: usize, ctl: &Ctl) -> Shared<bool> {
    let out = Shared::new(false);
    let (o, c) = (out.clone(), ctl.clone());
    on(n, || {
        task("run", async move {
            App(AssertSend(c)).run();
            o.set(true);
        })
    });
    mc::settle();
    out
}

fn sorted(mut v: Vec<Pid>) -> Vec<Pid> {
    v.sort();
    v
}

/// Processes come, go, link, monitor and register in every order; the console's answers are what the functions themselves say, and what is so.
fn answers() -> Scenario {
    let depth = if thorough() { 5 } else { 4 };
    seq("answers", 100).run(move || {
        mc::settle();
        mc::explore();
        let ctl = Ctl::new();
        let out = run(0, &ctl);
        check!(Process::whereis(NAME).is_some() && !out.get(), "not-started", "");
        up(0);
        up(1);
        let me = Agent::spawn("me");
        mc::settle();
        let console = me.exec(|| async { ConsoleServer::connect(Node::current()).await }).unwrap();
        let Ok(console) = console else { mc::violation("connect", &format!("{:?}", console)) };
        check!(Some(console) == Process::whereis(NAME), "connect", "{:?}", console);
        let base = Process::list().len();
        let p = [Agent::spawn("p0"), Agent::spawn("p1")];
        let (p0, p1) = (p[0].pid, p[1].pid);
        let mut alive = [true; 2];
        let (mut linked, mut mons, mut queue, mut name, mut conn) = (false, 0, 0, false, None);
        let mut trail = vec![];
        for _ in 0..depth {
            let op = mc::choose(9);
            if op == 8 {
                break;
            }
            if op < 5 && !alive[0] {
                return;
            }
            match op {
                0 => {
                    if !alive[1] {
                        return;
                    }
                    p[0].call(move || Process::link(p1));
                    linked = true;
                }
                1 => {
                    if !alive[1] {
                        return;
                    }
                    p[0].call(move || Process::monitor(p1));
                    mons += 1;
                }
                2 => {
                    p[0].call(move || Process::send(p1, M::Go));
                    queue += 1;
                }
                3 => {
                    p[0].call(move || Process::register(p0, "p0")).unwrap().unwrap();
                    name = true;
                }
                4 => {
                    p[0].finish();
                    (alive[0], linked, mons, name) = (false, false, 0, false);
                }
                5 => {
                    if !alive[1] {
                        return;
                    }
                    p[1].finish();
                    (alive[1], linked) = (false, false);
                }
                6 => {
                    me.call(|| Node::connect(node_of(1)));
                    conn = Some(true);
                }
                _ => {
                    if conn.is_none() {
                        return;
                    }
                    me.call(|| Node::disconnect(node_of(1)));
                    conn = Some(false);
                }
            }
            trail.push(op);
            mc::settle();
            let list = me.exec(move || async move { ConsoleServer::list_processes(console).await }).unwrap();
            let Ok(list) = list else { mc::violation("list", &format!("{:?}", list)) };
            let live: Vec<Pid> = sorted((0..2).filter(|i| alive[*i]).map(|i| p[i].pid).collect());
            check!(sorted(list.clone()) == sorted(Process::list()), "list", "{:?}: {:?}", trail, list);
            check!(sorted(list.iter().copied().filter(|x| *x == p0 || *x == p1).collect()) == live, "list", "{:?}: {:?}", trail, list);
            if conn.is_none() {
                check!(list.len() == base + live.len(), "list", "{:?}: {:?}", trail, list);
            }
            let info = me.exec(move || async move { ConsoleServer::processes_info(console, vec![p1, p0]).await }).unwrap();
            let Ok(info) = info else { mc::violation("info", &format!("{:?}", info)) };
            check!(info.len() == 2 && info[0].is_some() == alive[1] && info[1].is_some() == alive[0], "info", "{:?}: {:?}", trail, info);
            if let Some(i) = &info[0] {
                check!(i.links == if linked { vec![p0] } else { vec![] }, "info-links", "{:?}: {:?}", trail, i);
                check!(i.monitored_by == vec![p0; mons] && i.message_queue_len == queue && i.registered_name.is_none(), "info", "{:?}: {:?}", trail, i);
            }
            if let Some(i) = &info[1] {
                check!(i.registered_name.is_some() == name && i.links == if linked { vec![p1] } else { vec![] }, "info", "{:?}: {:?}", trail, i);
            }
            let rt = me.exec(move || async move { ConsoleServer::runtime_info(console).await }).unwrap();
            let Ok(rt) = rt else { mc::violation("runtime", "error") };
            check!(rt.processes == list.len(), "runtime", "{:?}: {} processes of {}", trail, rt.processes, list.len());
            for (st, want) in [(NodeState::Connected, conn == Some(true)), (NodeState::Known, conn == Some(false)), (NodeState::Pending, false)] {
                let nodes = me.exec(move || async move { ConsoleServer::list_nodes(console, st).await }).unwrap();
                let Ok(nodes) = nodes else { mc::violation("nodes", &format!("{:?}", nodes)) };
                let want = if want { vec![node_of(1)] } else { vec![] };
                check!(nodes == want, "nodes", "{:?}: {:?} {:?}", trail, st, nodes);
            }
        }
        ctl.cmd("main", Cmd::Return);
        mc::settle();
        check!(out.get(), "not-returned", "{:?}", ctl.log());
        quiet_conn();
        mc::outcome(trail);
    })
}

/// The console of another node: asked over the wire, its answers are about that node.
fn remote() -> Scenario {
    sc("remote", (1, 2), 2).run(|| {
        let ctl = Ctl::new();
        let out = run(1, &ctl);
        let (a, b) = pair();
        let target = Rem::spawn(1, "target");
        let t = target.pid;
        target.call(move || Process::register(t, "target").unwrap());
        b.call(move || {
            Process::link(t);
            Process::monitor(t);
        });
        mc::settle();
        mc::explore();
        let kill = mc::choose(2) == 1;
        let got: Shared<Option<String>> = Shared::new(None);
        let (g, far) = (got.clone(), (target.pid_on(0), b.pid_on(0)));
        a.post(move || async move {
            let (t, b) = far;
            let r: Result<String, CallError> = async {
                let c = ConsoleServer::connect(node_of(1)).await?;
                check!(c.is_remote(), "connect", "{:?}", c);
                let list = ConsoleServer::list_processes(c).await?;
                check!(list.iter().all(|p| p.is_remote()) && list.contains(&b) && list.contains(&c), "list", "{:?}", list);
                let info = ConsoleServer::processes_info(c, vec![b, t]).await?;
                check!(info.len() == 2 && info[0].is_some() && (kill || info[1].is_some()), "info", "{:?}", info);
                if let Some(i) = &info[1] {
                    // While it ends, what it was linked to is given up bit by bit.
                    check!(kill || (i.links == [b] && i.monitored_by == [b] && i.registered_name.as_deref() == Some("target")), "info", "{:?}", i);
                }
                let nodes = ConsoleServer::list_nodes(c, NodeState::Connected).await?;
                check!(nodes == [Node::Local] || nodes == [node_of(0)], "nodes", "{:?}", nodes);
                Ok(format!("{:?} {}", list.contains(&t), info[1].is_some()))
            }
            .await;
            g.set(Some(format!("{:?}", r)));
        });
        if kill {
            target.a.finish();
        }
        mc::settle();
        mc::settle_for(30 * SEC);
        let r = got.get();
        check!(r.as_ref().is_some_and(|r| r.starts_with("Ok")), "call", "{:?}", r);
        on(1, || ctl.cmd("main", Cmd::Return));
        mc::settle();
        check!(out.get(), "not-returned", "{:?}", ctl.log());
        quiet_conn();
        mc::outcome(r);
    })
}

/// The console server ends in every way, while it is asked: it is there again under its name, the application goes on, and every question is answered or fails.
fn kept() -> Scenario {
    sc("kept", (2, 3), 8).run(|| {
        let ctl = Ctl::new();
        let out = run(0, &ctl);
        let (me, other) = (Agent::spawn("me"), Agent::spawn("other"));
        let old = Process::whereis(NAME).unwrap();
        mc::settle();
        mc::explore();
        let how = mc::choose(4);
        let answer: Shared<Option<bool>> = Shared::new(None);
        let an = answer.clone();
        me.post(move || async move {
            let r = ConsoleServer::connect(Node::current()).await;
            an.set(Some(r.is_ok()));
        });
        other.call(move || match how {
            0 => Process::exit(old, ExitReason::Kill),
            1 => Process::exit(old, ExitReason::from("bad")),
            2 => Process::exit(old, ExitReason::Normal),
            _ => Process::exit(old, ExitReason::from("shutdown")),
        });
        let twice = how < 2 && mc::choose(2) == 1;
        mc::settle();
        if twice {
            let again = Process::whereis(NAME);
            check!(again.is_some(), "not-kept", "");
            other.call(move || Process::exit(again.unwrap(), ExitReason::Kill));
            mc::settle();
        }
        check!(!out.get() && ctl.running("main").len() == 1, "application", "the application has ended with its console");
        let now = Process::whereis(NAME);
        match how {
            0 | 1 => check!(now.is_some_and(|n| n != old), "not-kept", "{:?}", now),
            2 => check!(now == Some(old), "ended", "{:?}", now),
            _ => {}
        }
        if let Some(now) = now {
            let c = me.exec(|| async { ConsoleServer::connect(Node::current()).await }).unwrap();
            check!(matches!(c, Ok(p) if p == now), "connect", "{:?}", c);
        }
        mc::settle();
        let r = answer.get();
        check!(r.is_some() && (how != 2 || r == Some(true)), "call", "{:?}", r);
        ctl.cmd("main", Cmd::Return);
        mc::settle();
        check!(out.get() && Process::whereis(NAME).is_none(), "not-returned", "{:?}", ctl.log());
        no_stray_panics(&[]);
        mc::outcome((how, twice, r));
    })
}

/// Several ask at the same time: each gets its own answer.
fn busy() -> Scenario {
    sc("several", (2, 3), 1).run(|| {
        let ctl = Ctl::new();
        let out = run(0, &ctl);
        let p: Vec<Agent> = (0..3).map(|_| Agent::spawn("p")).collect();
        let console = Process::whereis(NAME).unwrap();
        mc::settle();
        mc::explore();
        let done = Shared::new(0);
        for (i, a) in p.iter().enumerate() {
            let (d, me) = (done.clone(), a.pid);
            a.post(move || async move {
                let ok = match i {
                    0 => ConsoleServer::connect(Node::current()).await.is_ok_and(|c| c == console),
                    1 => ConsoleServer::list_processes(console).await.is_ok_and(|l| l.contains(&me)),
                    _ => ConsoleServer::processes_info(console, vec![console, me]).await.is_ok_and(|i| i.len() == 2 && i[0].as_ref().is_some_and(|i| i.registered_name.as_deref() == Some(NAME))),
                };
                check!(ok, "answer", "of question {}", i);
                d.with(|d| *d += 1);
            });
        }
        mc::settle();
        check!(done.get() == 3, "hang", "{}", done.get());
        ctl.cmd("main", Cmd::Return);
        mc::settle();
        check!(out.get(), "not-returned", "");
        no_stray_panics(&[]);
        mc::outcome(0);
    })
}
