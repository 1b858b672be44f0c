//! Supervised children under control of the scenario.

use crate::util::*;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    /// Does not trap exits.
    Plain,
    /// Traps exits and ends that many milliseconds after a shutdown request.
    Trap(u64),
    /// Traps exits and ignores shutdown requests.
    Stubborn,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Plan {
    Fail(&'static str),
    Ignore,
    /// Starting takes that long.
    Slow(u64),
    /// Starting takes that long, then fails.
    SlowFail(u64),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Cmd {
    Return,
    Panic,
    ExitNormal,
    ExitShutdown,
    ExitBad,
    ExitKill,
}

impl Cmd {
    pub fn reason(self) -> ExitR {
        match self {
            Cmd::Return | Cmd::ExitNormal => ExitR::Normal,
            Cmd::Panic => ExitR::from("boom"),
            Cmd::ExitShutdown => ExitR::from("shutdown"),
            Cmd::ExitBad => ExitR::from("bad"),
            Cmd::ExitKill => ExitR::Kill,
        }
    }
    pub fn abnormal(self) -> bool {
        !matches!(self, Cmd::Return | Cmd::ExitNormal | Cmd::ExitShutdown)
    }
}

/// What happened to the children, in order. The number counts starts of all children.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum L {
    Start(&'static str, usize),
    Fail(&'static str),
    Ignore(&'static str),
    /// A trapping child received a shutdown request.
    Asked(&'static str, usize),
    End(&'static str, usize),
}

struct Kid {
    id: &'static str,
    pid: Option<Pid>,
    cmd: Option<Cmd>,
    waker: Option<Waker>,
    ended: bool,
}

#[derive(Default)]
struct Inner {
    kids: Vec<Kid>,
    log: Vec<L>,
    plan: BTreeMap<&'static str, VecDeque<Plan>>,
}

#[derive(Clone)]
pub struct Ctl(Shared<Inner>);

struct Guard(Ctl, usize);

impl Drop for Guard {
    fn drop(&mut self) {
        let n = self.1;
        self.0 .0.with(|s| {
            let id = s.kids[n].id;
            s.kids[n].ended = true;
            s.log.push(L::End(id, n));
        });
    }
}

impl Ctl {
    pub fn new() -> Ctl {
        Ctl(Shared::new(Inner::default()))
    }

    pub fn spec(&self, id: &'static str, kind: Kind) -> ChildSpec {
        let c = AssertSend(self.clone());
        ChildSpec::new(id).start(move || {
            let c = &c;
            AssertSend(c.0.clone().start(id, kind))
        })
    }

    pub async fn start(self, id: &'static str, kind: Kind) -> Result<Pid, ExitReason> {
        let plan = self.0.with(|s| s.plan.get_mut(id).and_then(|p| p.pop_front()));
        match plan {
            Some(Plan::Fail(r)) => {
                self.0.with(|s| s.log.push(L::Fail(id)));
                return Err(ExitReason::from(r));
            }
            Some(Plan::Ignore) => {
                self.0.with(|s| s.log.push(L::Ignore(id)));
                return Err(ExitReason::Ignore);
            }
            Some(Plan::Slow(t)) => Process::sleep(ms(t)).await,
            Some(Plan::SlowFail(t)) => {
                Process::sleep(ms(t)).await;
                self.0.with(|s| s.log.push(L::Fail(id)));
                return Err(ExitReason::from("no"));
            }
            None => (),
        }
        let n = self.0.with(|s| {
            s.kids.push(Kid { id, pid: None, cmd: None, waker: None, ended: false });
            let n = s.kids.len() - 1;
            s.log.push(L::Start(id, n));
            n
        });
        let guard = Guard(self.clone(), n);
        let me = self.clone();
        let pid = Process::spawn_link(AssertSend(async move {
            let _guard = guard;
            mc::set_task_name(id);
            me.body(n, id, kind).await
        }));
        self.0.with(|s| s.kids[n].pid = Some(pid));
        Ok(pid)
    }

    async fn body(self, n: usize, id: &'static str, kind: Kind) {
        if kind != Kind::Plain {
            trap();
        }
        loop {
            let me = &self;
            let mut msg = Box::pin(async {
                if kind == Kind::Plain {
                    std::future::pending::<()>().await;
                }
                loop {
                    if let Message::System(SystemMessage::Exit(..)) = Process::receive::<M>().await {
                        break;
                    }
                }
            });
            let got = std::future::poll_fn(|cx| {
                let c = me.0.with(|s| {
                    s.kids[n].waker = Some(cx.waker().clone());
                    s.kids[n].cmd.take()
                });
                if let Some(c) = c {
                    return Poll::Ready(Some(c));
                }
                msg.as_mut().poll(cx).map(|_| None)
            })
            .await;
            drop(msg);
            match got {
                Some(Cmd::Return) => return,
                Some(Cmd::Panic) => panic!("boom"),
                Some(c) => {
                    let r = match c {
                        Cmd::ExitNormal => ExitReason::Normal,
                        Cmd::ExitShutdown => ExitReason::from("shutdown"),
                        Cmd::ExitBad => ExitReason::from("bad"),
                        _ => ExitReason::Kill,
                    };
                    Process::exit(Process::current(), r);
                    std::future::pending::<()>().await;
                }
                None => {
                    self.0.with(|s| s.log.push(L::Asked(id, n)));
                    match kind {
                        Kind::Trap(t) => {
                            if t > 0 {
                                Process::sleep(ms(t)).await;
                            }
                            return;
                        }
                        _ => (),
                    }
                }
            }
        }
    }

    /// Drops the planned starts that have not come about.
    pub fn clear_plans(&self) {
        self.0.with(|s| s.plan.clear());
    }

    pub fn plan(&self, id: &'static str, p: Plan) {
        self.0.with(|s| s.plan.entry(id).or_default().push_back(p));
    }

    /// Lets the newest running instance of a child end.
    pub fn cmd(&self, id: &'static str, c: Cmd) -> bool {
        let w = self.0.with(|s| {
            let k = s.kids.iter_mut().rev().find(|k| k.id == id && !k.ended)?;
            k.cmd = Some(c);
            Some(k.waker.take())
        });
        if let Some(Some(w)) = &w {
            w.wake_by_ref();
        }
        w.is_some()
    }

    pub fn log(&self) -> Vec<L> {
        self.0.with(|s| s.log.clone())
    }

    /// Running instances.
    pub fn running(&self, id: &'static str) -> Vec<(usize, Pid)> {
        self.0.with(|s| {
            s.kids
                .iter()
                .enumerate()
                .filter(|(_, k)| k.id == id && !k.ended)
                .map(|(n, k)| (n, k.pid.unwrap_or_else(|| mc::violation("child-pid", "a start did not finish"))))
                .collect()
        })
    }

    pub fn any_running(&self) -> bool {
        self.0.with(|s| s.kids.iter().any(|k| !k.ended))
    }

    pub fn pid_of(&self, n: usize) -> Option<Pid> {
        self.0.with(|s| s.kids[n].pid)
    }

    /// Never two instances of one child at once.
    pub fn check_single(&self) {
        let mut live: BTreeSet<&'static str> = BTreeSet::new();
        for l in self.log() {
            match l {
                L::Start(id, _) => check!(live.insert(id), "double-start", "child {} was started while it was running: {:?}", id, self.log()),
                L::End(id, _) => {
                    live.remove(id);
                }
                _ => (),
            }
        }
    }
}

/// Starts a supervisor that is linked to nobody.
pub fn start_sup(s: Supervisor) -> Result<Pid, ExitR> {
    let out: Shared<Option<Result<Pid, ExitR>>> = Shared::new(None);
    let o = out.clone();
    proc("starter", async move {
        let r = s.start(SupervisorOptions::new()).await;
        o.set(Some(r.map_err(|e| e.into())));
    });
    mc::settle_for(3600 * SEC);
    out.get().unwrap_or_else(|| mc::violation("sup-start-hang", "the supervisor did not start"))
}

/// The reason the process ended with.
pub fn watch_end(pid: Pid) -> Shared<Vec<ExitR>> {
    let out = Shared::new(Vec::new());
    let o = out.clone();
    proc("end-watcher", async move {
        let _ = Process::monitor(pid);
        loop {
            if let Message::System(SystemMessage::ProcessDown(_, _, r)) = Process::receive::<M>().await {
                o.push(ExitR::from(r));
            }
        }
    });
    mc::settle();
    out
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Info {
    pub id: String,
    pub running: bool,
    pub supervisor: bool,
    pub restarting: bool,
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum SupE {
    Call,
    AlreadyStarted,
    AlreadyPresent,
    Start(ExitR),
    NotFound,
    Running,
    Restarting,
}

pub fn sup_e(e: SupervisorError) -> SupE {
    match e {
        SupervisorError::CallError(_) => SupE::Call,
        SupervisorError::AlreadyStarted => SupE::AlreadyStarted,
        SupervisorError::AlreadyPresent => SupE::AlreadyPresent,
        SupervisorError::StartError(r) => SupE::Start(r.into()),
        SupervisorError::NotFound => SupE::NotFound,
        SupervisorError::Running => SupE::Running,
        SupervisorError::Restarting => SupE::Restarting,
    }
}

pub async fn which(sup: Pid) -> Result<Vec<Info>, SupE> {
    let v = Supervisor::which_children(sup).await.map_err(sup_e)?;
    Ok(v.iter()
        .map(|i| {
            let j = serde_json::to_value(i).unwrap();
            Info {
                id: j["id"].as_str().unwrap().to_string(),
                running: !j["child"].is_null(),
                supervisor: j["child_type"] == "Supervisor",
                restarting: j["restarting"].as_bool().unwrap(),
            }
        })
        .collect())
}
