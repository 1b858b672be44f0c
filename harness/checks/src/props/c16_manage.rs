//! C16: the management requests of a supervisor against a reference model.

use crate::sup::*;
use crate::util::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![histories(), pairs(), same_id(), restarting(), restarting_group()]
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum Rs {
    Perm,
    Trans,
    Temp,
}

impl Rs {
    fn real(self) -> Restart {
        match self {
            Rs::Perm => Restart::Permanent,
            Rs::Trans => Restart::Transient,
            Rs::Temp => Restart::Temporary,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct MChild {
    id: &'static str,
    rs: Rs,
    up: bool,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum Op {
    Start(&'static str, Rs, usize),
    Terminate(&'static str),
    Restart(&'static str, usize),
    Delete(&'static str),
    Count,
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
enum Res {
    Ok,
    Pid(bool),
    Err(SupE),
    Counts(usize, usize),
    Hang,
}

/// What a client relies on.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Default)]
struct Model {
    kids: Vec<MChild>,
}

impl Model {
    fn find(&self, id: &str) -> Option<usize> {
        self.kids.iter().position(|k| k.id == id)
    }

    /// `Err` with an id: whether the specification stays is left open.
    fn apply(&mut self, op: Op) -> (Res, Option<&'static str>) {
        match op {
            Op::Count => (Res::Counts(self.kids.len(), self.kids.iter().filter(|k| k.up).count()), None),
            Op::Start(id, rs, how) => match self.find(id) {
                Some(i) => (Res::Err(if self.kids[i].up { SupE::AlreadyStarted } else { SupE::AlreadyPresent }), None),
                None => match how {
                    0 => {
                        self.kids.push(MChild { id, rs, up: true });
                        (Res::Pid(true), None)
                    }
                    1 => {
                        if rs != Rs::Temp {
                            self.kids.push(MChild { id, rs, up: false });
                        }
                        (Res::Pid(false), None)
                    }
                    _ => {
                        self.kids.push(MChild { id, rs, up: false });
                        (Res::Err(SupE::Start(ExitR::from("no"))), Some(id))
                    }
                },
            },
            Op::Terminate(id) => match self.find(id) {
                None => (Res::Err(SupE::NotFound), None),
                Some(i) => {
                    self.kids[i].up = false;
                    if self.kids[i].rs == Rs::Temp {
                        self.kids.remove(i);
                    }
                    (Res::Ok, None)
                }
            },
            Op::Restart(id, how) => match self.find(id) {
                None => (Res::Err(SupE::NotFound), None),
                Some(i) if self.kids[i].up => (Res::Err(SupE::Running), None),
                Some(i) => match how {
                    0 => {
                        self.kids[i].up = true;
                        (Res::Pid(true), None)
                    }
                    1 => (Res::Pid(false), None),
                    _ => (Res::Err(SupE::Start(ExitR::from("no"))), None),
                },
            },
            Op::Delete(id) => match self.find(id) {
                None => (Res::Err(SupE::NotFound), None),
                Some(i) if self.kids[i].up => (Res::Err(SupE::Running), None),
                Some(i) => {
                    self.kids.remove(i);
                    (Res::Ok, None)
                }
            },
        }
    }

    fn list(&self) -> Vec<Info> {
        self.kids.iter().map(|k| Info { id: k.id.to_string(), running: k.up, supervisor: false, restarting: false }).collect()
    }
}

fn plan(ctl: &Ctl, id: &'static str, how: usize) {
    match how {
        1 => ctl.plan(id, Plan::Ignore),
        2 => ctl.plan(id, Plan::Fail("no")),
        _ => (),
    }
}

async fn perform(ctl: Ctl, sup: Pid, op: Op) -> Res {
    match op {
        Op::Start(id, rs, _) => match Supervisor::start_child(sup, ctl.spec(id, Kind::Plain).restart(rs.real())).await {
            Ok(p) => Res::Pid(p.is_some()),
            Err(e) => Res::Err(sup_e(e)),
        },
        Op::Terminate(id) => match Supervisor::terminate_child(sup, id).await {
            Ok(()) => Res::Ok,
            Err(e) => Res::Err(sup_e(e)),
        },
        Op::Restart(id, _) => match Supervisor::restart_child(sup, id).await {
            Ok(p) => Res::Pid(p.is_some()),
            Err(e) => Res::Err(sup_e(e)),
        },
        Op::Delete(id) => match Supervisor::delete_child(sup, id).await {
            Ok(()) => Res::Ok,
            Err(e) => Res::Err(sup_e(e)),
        },
        Op::Count => match Supervisor::count_children(sup).await {
            Ok(c) => {
                check!(c.workers == c.specs && c.supervisors == 0, "count-types", "{:?}", c);
                Res::Counts(c.specs, c.active)
            }
            Err(e) => Res::Err(sup_e(e)),
        },
    }
}

const IDS: [&str; 3] = ["a", "t", "n"];
const RS: [Rs; 3] = [Rs::Perm, Rs::Temp, Rs::Trans];

/// Every history of requests and child ends.
fn histories() -> Scenario {
    let depth = if thorough() { 4 } else { 3 };
    seq("histories", 1000).run(move || {
        mc::settle();
        mc::explore();
        let ctl = Ctl::new();
        let sup = Supervisor::new()
            .max_restarts(100)
            .add_child(ctl.spec("a", Kind::Plain))
            .add_child(ctl.spec("t", Kind::Plain).restart(Restart::Temporary));
        let pid = start_sup(sup).unwrap();
        let client = Agent::spawn("client");
        let mut model = Model { kids: vec![MChild { id: "a", rs: Rs::Perm, up: true }, MChild { id: "t", rs: Rs::Temp, up: true }] };
        let mut trail = vec![];
        for _ in 0..depth {
            // 3 ids: start x3, terminate, restart x3, delete, end x2.
            let i = mc::choose(3);
            let id = IDS[i];
            let k = mc::choose(10);
            if k >= 8 {
                trail.push(format!("end {} {}", id, if k == 8 { "boom" } else { "normally" }));
                let cmd = if k == 8 { Cmd::Panic } else { Cmd::Return };
                let had = ctl.cmd(id, cmd);
                mc::settle();
                let m = model.find(id);
                check!(had == m.is_some_and(|m| model.kids[m].up), "running", "after {:?}: {} running {}", trail, id, had);
                if let (true, Some(m)) = (had, m) {
                    match (model.kids[m].rs, k) {
                        (Rs::Perm, _) | (Rs::Trans, 8) => (),
                        (Rs::Temp, _) => {
                            model.kids.remove(m);
                        }
                        _ => {
                            // Whether the specification of a finished transient child stays is left open.
                            model.kids[m].up = false;
                            sync(&client, pid, &mut model, id);
                        }
                    }
                }
            } else {
                let op = match k {
                    0..=2 => Op::Start(id, RS[i], k),
                    3 => Op::Terminate(id),
                    4..=6 => Op::Restart(id, k - 4),
                    _ => Op::Delete(id),
                };
                trail.push(format!("{:?}", op));
                match op {
                    Op::Start(_, _, h) if model.find(id).is_none() => plan(&ctl, id, h),
                    Op::Restart(_, h) if model.find(id).is_some_and(|m| !model.kids[m].up) => plan(&ctl, id, h),
                    Op::Start(_, _, h) | Op::Restart(_, h) if h > 0 => return,
                    _ => (),
                }
                let c2 = ctl.clone();
                let got = client.exec(move || perform(c2, pid, op)).unwrap_or(Res::Hang);
                mc::settle();
                let (want, open) = model.apply(op);
                check!(got == want, "result", "after {:?}: got {:?}, expected {:?}", trail, got, want);
                if let Some(id) = open {
                    sync(&client, pid, &mut model, id);
                }
            }
            compare(&client, &ctl, pid, &model, &trail);
        }
        ctl.check_single();
        no_stray_panics(&[]);
        mc::outcome(trail);
    })
}

fn list(client: &Agent, pid: Pid) -> Vec<Info> {
    match client.exec(move || which(pid)) {
        Some(Ok(v)) => v,
        e => mc::violation("which-failed", &format!("{:?}", e)),
    }
}

fn sync(client: &Agent, pid: Pid, model: &mut Model, id: &'static str) {
    let there = list(client, pid).iter().any(|i| i.id == id);
    if !there {
        let i = model.find(id).unwrap();
        model.kids.remove(i);
    }
}

fn compare(client: &Agent, ctl: &Ctl, pid: Pid, model: &Model, trail: &[String]) {
    let got = list(client, pid);
    check!(got == model.list(), "children", "after {:?}: {:?}, expected {:?}", trail, got, model.list());
    let c2 = ctl.clone();
    let got = client.exec(move || perform(c2, pid, Op::Count)).unwrap_or(Res::Hang);
    let (want, _) = model.clone().apply(Op::Count);
    check!(got == want, "count", "after {:?}: {:?}, expected {:?}", trail, got, want);
    for id in IDS {
        let up = model.find(id).is_some_and(|m| model.kids[m].up);
        check!(ctl.running(id).len() == up as usize, "running", "after {:?}: {} running, expected {}", trail, id, up);
    }
    check!(Process::alive(pid), "sup-died", "after {:?}", trail);
}

/// Two clients at once: the answers are those of one order.
fn pairs() -> Scenario {
    sc("two-clients", (1, 2), 60).run(|| {
        let ctl = Ctl::new();
        let sup = Supervisor::new()
            .add_child(ctl.spec("a", Kind::Plain))
            .add_child(ctl.spec("t", Kind::Plain).restart(Restart::Temporary));
        let pid = start_sup(sup).unwrap();
        let clients = [Agent::spawn("client-1"), Agent::spawn("client-2")];
        mc::settle();
        mc::explore();
        let pick = |n: usize| -> Op {
            match n {
                0 => Op::Start("n", Rs::Trans, 0),
                1 => Op::Terminate("a"),
                2 => Op::Terminate("t"),
                3 => Op::Restart("a", 0),
                4 => Op::Delete("a"),
                5 => Op::Start("t", Rs::Temp, 0),
                _ => Op::Count,
            }
        };
        let scripts = [[pick(mc::choose(4)), Op::Delete("a")], [pick(mc::choose(7)), Op::Count]];
        let res: Shared<[Vec<Res>; 2]> = Shared::new([vec![], vec![]]);
        for c in 0..2 {
            let (ctl, res, script) = (ctl.clone(), res.clone(), scripts[c]);
            clients[c].post(move || async move {
                for op in script {
                    let r = perform(ctl.clone(), pid, op).await;
                    res.with(|x| x[c].push(r));
                }
            });
        }
        mc::settle();
        let got = res.get();
        let start = Model { kids: vec![MChild { id: "a", rs: Rs::Perm, up: true }, MChild { id: "t", rs: Rs::Temp, up: true }] };
        let fin = mc::quiet(|| list(&clients[0], pid));
        // Every merge of both scripts.
        let mut ok = false;
        for order in [[0, 0, 1, 1], [0, 1, 0, 1], [0, 1, 1, 0], [1, 0, 0, 1], [1, 0, 1, 0], [1, 1, 0, 0]] {
            let mut m = start.clone();
            let mut want = [vec![], vec![]];
            for c in order {
                let op = scripts[c][want[c].len()];
                let r = m.apply(op).0;
                want[c].push(r);
            }
            ok |= want == got && m.list() == fin;
        }
        check!(ok, "not-linearizable", "{:?} answered {:?}, then {:?}: no order of the requests explains that", scripts, got, fin);
        for i in &fin {
            let id = IDS.into_iter().find(|x| *x == i.id).unwrap();
            check!(ctl.running(id).len() == i.running as usize, "running", "{:?}", i);
        }
        ctl.check_single();
        no_stray_panics(&[]);
        mc::outcome((scripts, got));
    })
}

/// Several clients start the same new child while starting takes time.
fn same_id() -> Scenario {
    sc("same-id", (2, 3), 1).run(|| {
        let ctl = Ctl::new();
        let pid = start_sup(Supervisor::new()).unwrap();
        let clients = [Agent::spawn("client-1"), Agent::spawn("client-2")];
        ctl.plan("n", Plan::Slow(5));
        mc::settle();
        mc::explore();
        let res: Shared<Vec<Res>> = Shared::new(vec![]);
        for c in &clients {
            let (ctl, res) = (ctl.clone(), res.clone());
            c.post(move || async move {
                let r = perform(ctl, pid, Op::Start("n", Rs::Perm, 0)).await;
                res.push(r);
            });
        }
        mc::settle_for(SEC);
        let mut got = res.get();
        let first = got[0].clone();
        got.sort();
        check!(got == vec![Res::Pid(true), Res::Err(SupE::AlreadyStarted)], "start-twice", "{:?}", got);
        check!(ctl.running("n").len() == 1 && ctl.log() == vec![L::Start("n", 0)], "start-twice", "{:?}", ctl.log());
        no_stray_panics(&[]);
        mc::outcome(first);
    })
}

/// The same for a child whose restart failed with that of its group.
fn restarting_group() -> Scenario {
    sc("restarting-group", (1, 2), 12).run(|| {
        let ctl = Ctl::new();
        let tops: Vec<(Ctl, Pid)> = [SupervisionStrategy::OneForAll, SupervisionStrategy::RestForOne]
            .into_iter()
            .map(|s| {
                let ctl = Ctl::new();
                let sup = Supervisor::new().strategy(s).max_restarts(10).add_child(ctl.spec("a", Kind::Plain)).add_child(ctl.spec("b", Kind::Plain));
                let pid = start_sup(sup).unwrap();
                (ctl, pid)
            })
            .collect();
        drop(ctl);
        let client = Agent::spawn("client");
        mc::settle();
        mc::explore();
        let (s, o) = (mc::choose(2), mc::choose(6));
        let (ctl, pid) = (tops[s].0.clone(), tops[s].1);
        // Busy with a for a while: the request waits in the mailbox before the retry of b.
        ctl.plan("a", Plan::Slow(5));
        ctl.plan("b", Plan::Fail("no"));
        ctl.cmd("a", Cmd::Panic);
        mc::settle();
        let c2 = ctl.clone();
        let res: Shared<Option<(Res, Vec<Info>)>> = Shared::new(None);
        let r2 = res.clone();
        client.post(move || async move {
            let r = match o {
                0 => perform(c2, pid, Op::Terminate("b")).await,
                1 => perform(c2, pid, Op::Restart("b", 0)).await,
                2 => perform(c2, pid, Op::Delete("b")).await,
                3 => perform(c2, pid, Op::Count).await,
                _ => Res::Ok,
            };
            let l = if o == 4 { which(pid).await.unwrap() } else { vec![] };
            r2.set(Some((r, l)));
        });
        mc::settle_for(SEC);
        let (r, l) = res.get().unwrap_or_else(|| mc::violation("call-hang", ""));
        let n = ctl.running("b").len();
        match o {
            0 => check!(r == Res::Ok && n == 0, "terminate-restarting", "{:?}, {} running: {:?}", r, n, ctl.log()),
            1 | 2 => check!(r == Res::Err(SupE::Restarting) && n == 1, "restarting", "request {}: {:?}, {} running", o, r, n),
            3 => check!(r == Res::Counts(2, 1) && n == 1, "count-restarting", "{:?}", r),
            4 => check!(
                l[1] == Info { id: "b".into(), running: false, supervisor: false, restarting: true } && l[0].running && !l[0].restarting,
                "list-restarting",
                "{:?}",
                l
            ),
            _ => check!(n == 1, "not-restarted", ""),
        }
        check!(ctl.running("a").len() == 1 && Process::alive(pid), "bystander", "");
        // It is restarted, or not, with its group as before.
        ctl.cmd("a", Cmd::Panic);
        mc::settle();
        check!(ctl.running("a").len() == 1 && Process::alive(pid), "not-restarted", "");
        check!(o == 0 || ctl.running("b").len() == 1, "not-restarted", "{:?}", ctl.log());
        ctl.check_single();
        no_stray_panics(&[]);
        mc::outcome((s, o, r));
    })
}

/// A child that waits for its restart is neither running nor free.
fn restarting() -> Scenario {
    sc("restarting", (2, 3), 6).run(|| {
        let ctl = Ctl::new();
        let sup = Supervisor::new().max_restarts(10).add_child(ctl.spec("a", Kind::Plain)).add_child(ctl.spec("b", Kind::Plain));
        let pid = start_sup(sup).unwrap();
        let client = Agent::spawn("client");
        mc::settle();
        mc::explore();
        let o = mc::choose(6);
        // The failing restart takes a while: the request waits in the mailbox before the retry.
        ctl.plan("a", Plan::Slow(5));
        ctl.plan("a", Plan::Fail("no"));
        // The first plan is used up by the first restart, which succeeds; fail the second one.
        ctl.cmd("a", Cmd::Panic);
        mc::settle_for(SEC);
        ctl.plan("b", Plan::Slow(5));
        ctl.cmd("b", Cmd::Panic);
        mc::settle();
        // Busy with b for a while: the end of a comes first, then the request, then the retry.
        ctl.cmd("a", Cmd::Panic);
        mc::settle();
        let c2 = ctl.clone();
        let res: Shared<Option<(Res, Vec<Info>)>> = Shared::new(None);
        let r2 = res.clone();
        client.post(move || async move {
            let r = match o {
                0 => perform(c2, pid, Op::Terminate("a")).await,
                1 => perform(c2, pid, Op::Restart("a", 0)).await,
                2 => perform(c2, pid, Op::Delete("a")).await,
                3 => perform(c2, pid, Op::Count).await,
                _ => Res::Ok,
            };
            let l = if o == 4 { which(pid).await.unwrap() } else { vec![] };
            r2.set(Some((r, l)));
        });
        mc::settle_for(SEC);
        let (r, l) = res.get().unwrap_or_else(|| mc::violation("call-hang", ""));
        let n = ctl.running("a").len();
        match o {
            0 => check!(r == Res::Ok && n == 0, "terminate-restarting", "{:?}, {} running: {:?}", r, n, ctl.log()),
            1 | 2 => check!(r == Res::Err(SupE::Restarting) && n == 1, "restarting", "request {}: {:?}, {} running", o, r, n),
            3 => check!(r == Res::Counts(2, 1) && n == 1, "count-restarting", "{:?}", r),
            4 => check!(
                l[0] == Info { id: "a".into(), running: false, supervisor: false, restarting: true } && l[1].running && !l[1].restarting,
                "list-restarting",
                "{:?}",
                l
            ),
            _ => check!(n == 1, "not-restarted", ""),
        }
        check!(ctl.running("b").len() == 1 && Process::alive(pid), "bystander", "");
        ctl.check_single();
        no_stray_panics(&[]);
        mc::outcome((o, r));
    })
}
