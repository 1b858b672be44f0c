//! Helpers shared by the scenarios.

#![allow(dead_code)]

pub use hydra::*;
pub use mc::{check, Config, Scenario, Shared, MS, SEC};
pub use serde::{Deserialize, Serialize};
pub use std::collections::{BTreeMap, BTreeSet, VecDeque};
pub use std::future::Future;
pub use std::pin::Pin;
pub use std::task::{Context, Poll, Waker};
pub use std::time::Duration;

/// The user message of most scenarios.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum M {
    N(u32),
    P(Pid, u32),
    R(Reference, u32),
    Go,
    Stop,
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Other(pub String);

pub fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}

/// Times in milliseconds at and around those that occur in code.
pub const SPANS: [u64; 14] = [1, 2, 999, 1000, 1001, 4999, 5000, 5001, 10_001, 59_999, 60_001, 600_001, 3_600_001, 86_400_001];

pub struct Sc {
    pub name: &'static str,
    pub cfg: Config,
    pub dev: (u32, u32),
    pub secs: (f64, f64),
    pub min: usize,
}

/// Default: every interleaving with the given number of deviations.
pub fn sc(name: &'static str, dev: (u32, u32), min: usize) -> Sc {
    Sc { name, cfg: Config::default(), dev, secs: (10.0, 90.0), min }
}

/// Only data choices: every history of the reference-model comparison.
pub fn seq(name: &'static str, min: usize) -> Sc {
    Sc {
        name,
        cfg: Config { no_sched: true, ..Config::default() },
        dev: (0, 0),
        secs: (60.0, 400.0),
        min,
    }
}

impl Sc {
    pub fn timers(mut self, horizon_ms: u64) -> Self {
        self.cfg.timer_dev = true;
        self.cfg.timer_dev_horizon = horizon_ms * MS;
        self
    }
    pub fn chunks(mut self) -> Self {
        self.cfg.net_chunks = true;
        self
    }
    pub fn no_preempt(mut self) -> Self {
        self.cfg.no_preempt = true;
        self
    }
    pub fn dev(mut self, q: u32, t: u32) -> Self {
        self.dev = (q, t);
        self
    }
    pub fn secs(mut self, q: f64, t: f64) -> Self {
        self.secs = (q, t);
        self
    }
    pub fn steps(mut self, n: u64) -> Self {
        self.cfg.max_steps = n;
        self
    }
    pub fn run(self, f: impl Fn() + 'static) -> Scenario {
        Scenario {
            name: self.name.to_string(),
            cfg: self.cfg,
            dev: self.dev,
            secs: self.secs,
            min_outcomes: self.min,
            run: Box::new(f),
        }
    }
}

/// Everything runs on one OS thread: futures of the harness may hold `Rc`s.
pub struct AssertSend<T>(pub T);
unsafe impl<T> Send for AssertSend<T> {}
unsafe impl<T> Sync for AssertSend<T> {}
impl<T: Future> Future for AssertSend<T> {
    type Output = T::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T::Output> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}

/// A process with a name in traces.
pub fn proc<F: Future<Output = ()> + 'static>(name: &'static str, f: F) -> Pid {
    Process::spawn(AssertSend(async move {
        mc::set_task_name(name);
        f.await
    }))
}

/// Sends an exit signal from a process of its own.
pub fn signal(pid: Pid, reason: impl Into<ExitReason>) {
    let reason = reason.into();
    proc("signal", async move { Process::exit(pid, reason) });
}

/// A plain task (not a process).
pub fn task<F: Future<Output = ()> + 'static>(name: &'static str, f: F) {
    tokio::spawn(AssertSend(async move {
        mc::set_task_name(name);
        f.await
    }));
}

/// Polls once; `None` when not ready.
pub async fn poll_once<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    std::future::poll_fn(move |cx| match f.as_mut().poll(cx) {
        Poll::Ready(v) => Poll::Ready(Some(v)),
        Poll::Pending => Poll::Ready(None),
    })
    .await
}

/// A gate outside of the code under test: opening it is no scheduling point.
#[derive(Clone)]
pub struct Gate(Shared<(bool, Vec<Waker>)>);

impl Gate {
    pub fn new() -> Gate {
        Gate(Shared::new((false, Vec::new())))
    }
    pub fn open(&self) {
        let w = self.0.with(|s| {
            s.0 = true;
            std::mem::take(&mut s.1)
        });
        for w in w {
            w.wake();
        }
    }
    pub fn is_open(&self) -> bool {
        self.0.with(|s| s.0)
    }
    pub async fn wait(&self) {
        std::future::poll_fn(|cx| {
            self.0.with(|s| {
                if s.0 {
                    Poll::Ready(())
                } else {
                    s.1.push(cx.waker().clone());
                    Poll::Pending
                }
            })
        })
        .await
    }
    /// For the driving task.
    pub fn wait_blocking(&self) {
        let g = self.clone();
        mc::block_on(AssertSend(async move { g.wait().await }));
    }
}

type Cmd = Box<dyn FnOnce() -> Pin<Box<dyn Future<Output = ()>>>>;

/// A process that runs what the driving task tells it to.
#[derive(Clone)]
pub struct Agent {
    pub pid: Pid,
    q: Shared<(VecDeque<Cmd>, Option<Waker>, bool)>,
}

impl Agent {
    async fn body(q: Shared<(VecDeque<Cmd>, Option<Waker>, bool)>) {
        loop {
            let cmd = std::future::poll_fn(|cx| {
                q.with(|s| match s.0.pop_front() {
                    Some(c) => Poll::Ready(Some(c)),
                    None if s.2 => Poll::Ready(None),
                    None => {
                        s.1 = Some(cx.waker().clone());
                        Poll::Pending
                    }
                })
            })
            .await;
            match cmd {
                Some(c) => c().await,
                None => break,
            }
        }
    }

    pub fn spawn(name: &'static str) -> Agent {
        let q = Shared::new((VecDeque::new(), None, false));
        let q2 = q.clone();
        let pid = proc(name, Self::body(q2));
        Agent { pid, q }
    }

    fn wake(&self) {
        if let Some(w) = self.q.with(|s| s.1.take()) {
            w.wake();
        }
    }

    /// Queues a command.
    pub fn post<F, Fut>(&self, f: F)
    where
        F: FnOnce() -> Fut + 'static,
        Fut: Future<Output = ()> + 'static,
    {
        self.q.with(|s| s.0.push_back(Box::new(move || Box::pin(f()))));
        self.wake();
    }

    /// Runs a command and waits for its result; `None` when the process ended before.
    pub fn exec<F, Fut, R>(&self, f: F) -> Option<R>
    where
        F: FnOnce() -> Fut + 'static,
        Fut: Future<Output = R> + 'static,
        R: 'static,
    {
        struct Done(Gate);
        impl Drop for Done {
            fn drop(&mut self) {
                self.0.open();
            }
        }
        let slot: Shared<Option<R>> = Shared::new(None);
        let (s2, gate) = (slot.clone(), Gate::new());
        let done = Done(gate.clone());
        self.post(move || async move {
            let done = done;
            let r = f().await;
            s2.set(Some(r));
            drop(done);
        });
        // A dead agent drops its queue only with its last reference: look at the process too.
        if !self.alive_any() {
            return None;
        }
        gate.wait_blocking();
        slot.with(|s| s.take())
    }

    /// Runs a synchronous command inside of the process.
    pub fn call<R: 'static>(&self, f: impl FnOnce() -> R + 'static) -> Option<R> {
        self.exec(move || async move { f() })
    }

    fn alive_any(&self) -> bool {
        Process::alive(self.pid)
    }

    /// The process function returns.
    pub fn finish(&self) {
        self.q.with(|s| s.2 = true);
        self.wake();
    }

    /// The process function panics.
    pub fn panic(&self) {
        self.post(|| async { panic!("boom") });
    }
}

/// Everything in the mailbox of the current process, in order.
pub async fn drain<T: Receivable>() -> Vec<Message<T>> {
    let mut out = Vec::new();
    while let Some(m) = poll_once(Process::receiver().for_message::<T>().receive()).await {
        out.push(m);
    }
    out
}

/// The system messages and `M` messages that arrived, as a list of readable events.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ev {
    Msg(M),
    Exit(Pid, ExitR),
    Down(DestR, Reference, ExitR),
    NodeDown(String, Reference),
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum ExitR {
    Normal,
    Kill,
    Ignore,
    Custom(String),
}

impl std::convert::From<ExitReason> for ExitR {
    fn from(r: ExitReason) -> ExitR {
        match r {
            ExitReason::Normal => ExitR::Normal,
            ExitReason::Kill => ExitR::Kill,
            ExitReason::Ignore => ExitR::Ignore,
            ExitReason::Custom(s) => ExitR::Custom(s),
        }
    }
}

impl std::convert::From<&str> for ExitR {
    fn from(s: &str) -> ExitR {
        ExitR::Custom(s.to_string())
    }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum DestR {
    Pid(Pid),
    Name(String, bool),
    Alias(Reference),
}

impl std::convert::From<Dest> for DestR {
    fn from(d: Dest) -> DestR {
        match d {
            Dest::Pid(p) => DestR::Pid(p),
            Dest::Named(n, node) => DestR::Name(n.into_owned(), node == Node::Local),
            Dest::Alias(r) => DestR::Alias(r),
        }
    }
}

pub fn ev(m: Message<M>) -> Ev {
    match m {
        Message::User(m) => Ev::Msg(m),
        Message::System(SystemMessage::Exit(p, r)) => Ev::Exit(p, r.into()),
        Message::System(SystemMessage::ProcessDown(d, r, e)) => Ev::Down(d.into(), r, e.into()),
        Message::System(SystemMessage::NodeDown(n, r)) => Ev::NodeDown(format!("{:?}", n), r),
    }
}

pub async fn events() -> Vec<Ev> {
    drain::<M>().await.into_iter().map(ev).collect()
}

/// Collects events until the process ends.
pub async fn collect(log: Shared<Vec<Ev>>) {
    loop {
        let m = Process::receiver().for_message::<M>().receive().await;
        log.push(ev(m));
    }
}

/// Panics that no scenario asked for are violations.
pub fn no_stray_panics(allowed: &[&str]) {
    for p in mc::panics() {
        if p.starts_with("boom") || allowed.iter().any(|a| p.contains(a)) {
            continue;
        }
        mc::violation("panic", &format!("code under test panicked: {}", p));
    }
}

pub fn trap() {
    Process::set_flags(ProcessFlags::TRAP_EXIT);
}

static THOROUGH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// The thorough tier explores longer histories.
pub fn thorough() -> bool {
    THOROUGH.load(std::sync::atomic::Ordering::Relaxed)
}

pub fn set_thorough(v: bool) {
    THOROUGH.store(v, std::sync::atomic::Ordering::Relaxed);
}
