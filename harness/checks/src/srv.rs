//! A scriptable server that records its callbacks.

use crate::util::*;

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Q {
    /// Answered with `Ans`.
    Echo(u32),
    /// Answered later by `reply_deferred`.
    Defer(u32),
    /// Answered after some time, in the callback.
    Slow(u32, u64),
    /// The callback stops the server.
    Fail(u32),
    Boom,
    Note(u32),
    Ans(u32),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Deferred(pub From, pub u32);

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum Cb {
    Init,
    Cast(Q),
    Call(Q, Pid),
    Info(Q),
    Exit(Pid, ExitR),
    Down(Reference),
    Term(ExitR),
}

#[derive(Clone)]
pub struct Srv {
    pub log: Shared<Vec<Cb>>,
    pub deferred: Shared<Vec<(From, u32)>>,
    /// Who answers deferred calls instead.
    pub forward: Shared<Option<Pid>>,
    /// Time in a callback, and its number if one is running.
    pub busy: Shared<bool>,
    pub init_ms: u64,
    pub init_err: Option<ExitReason>,
    pub init_panic: bool,
    pub trap: bool,
    pub slow_term: bool,
}

impl Srv {
    pub fn new() -> Srv {
        Srv {
            log: Shared::new(Vec::new()),
            deferred: Shared::new(Vec::new()),
            forward: Shared::new(None),
            busy: Shared::new(false),
            init_ms: 0,
            init_err: None,
            init_panic: false,
            trap: false,
            slow_term: false,
        }
    }
    pub fn trapping(mut self) -> Srv {
        self.trap = true;
        self
    }
    /// A fresh record with the same behaviour.
    pub fn log(&self) -> Vec<Cb> {
        self.log.get()
    }
    pub fn terms(&self) -> Vec<ExitR> {
        self.log().into_iter().filter_map(|c| if let Cb::Term(r) = c { Some(r) } else { None }).collect()
    }
    fn enter(&self) {
        check!(!self.busy.get(), "callback-overlap", "two callbacks run at once");
        let l = self.log();
        check!(!l.iter().any(|c| matches!(c, Cb::Term(_))), "callback-after-terminate", "a callback ran after terminate: {:?}", l);
        self.busy.set(true);
    }
    fn leave(&self) {
        self.busy.set(false);
    }
    pub fn reply_oldest(&self) -> Option<u32> {
        let d = self.deferred.with(|d| (!d.is_empty()).then(|| d.remove(0)));
        d.map(|(f, n)| {
            Srv::reply(f, Q::Ans(n));
            n
        })
    }
}

impl GenServer for Srv {
    type Message = Q;

    async fn init(&mut self) -> Result<(), ExitReason> {
        mc::set_task_name("server");
        self.log.push(Cb::Init);
        if self.trap {
            trap();
        }
        if self.init_ms > 0 {
            Process::sleep(ms(self.init_ms)).await;
        }
        if self.init_panic {
            panic!("boom");
        }
        match &self.init_err {
            Some(e) => Err(e.clone()),
            None => Ok(()),
        }
    }

    async fn terminate(&mut self, reason: ExitReason) {
        self.enter();
        self.log.push(Cb::Term(reason.into()));
        if self.slow_term {
            Process::sleep(ms(5)).await;
            tokio::task::yield_now().await;
        }
        self.leave();
    }

    async fn handle_cast(&mut self, m: Q) -> Result<(), ExitReason> {
        self.enter();
        self.log.push(Cb::Cast(m.clone()));
        let r = match m {
            Q::Fail(n) => Err(ExitReason::from(format!("fail{}", n))),
            Q::Boom => {
                self.leave();
                panic!("boom")
            }
            Q::Slow(_, t) => {
                Process::sleep(ms(t)).await;
                Ok(())
            }
            _ => Ok(()),
        };
        self.leave();
        r
    }

    async fn handle_call(&mut self, m: Q, from: From) -> Result<Option<Q>, ExitReason> {
        self.enter();
        self.log.push(Cb::Call(m.clone(), from.pid()));
        let r = match m {
            Q::Defer(n) => {
                match self.forward.get() {
                    Some(p) => Process::send(p, Deferred(from, n)),
                    None => self.deferred.push((from, n)),
                }
                Ok(None)
            }
            Q::Fail(n) => Err(ExitReason::from(format!("fail{}", n))),
            Q::Boom => {
                self.leave();
                panic!("boom")
            }
            Q::Slow(n, t) => {
                Process::sleep(ms(t)).await;
                Ok(Some(Q::Ans(n)))
            }
            Q::Echo(n) => Ok(Some(Q::Ans(n))),
            q => Ok(Some(q)),
        };
        self.leave();
        r
    }

    async fn handle_info(&mut self, m: Message<Q>) -> Result<(), ExitReason> {
        self.enter();
        let r = match m {
            Message::User(q) => {
                self.log.push(Cb::Info(q.clone()));
                match q {
                    Q::Fail(n) => Err(ExitReason::from(format!("fail{}", n))),
                    _ => Ok(()),
                }
            }
            Message::System(SystemMessage::Exit(p, r)) => {
                self.log.push(Cb::Exit(p, r.into()));
                Ok(())
            }
            Message::System(SystemMessage::ProcessDown(_, r, _)) => {
                self.log.push(Cb::Down(r));
                Ok(())
            }
            _ => Ok(()),
        };
        self.leave();
        r
    }
}

/// The result of a call in comparable form.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum CallR {
    Ok(Q),
    Timeout,
    Down(ExitR),
}

pub fn call_r(r: Result<Q, CallError>) -> CallR {
    match r {
        Ok(q) => CallR::Ok(q),
        Err(CallError::Timeout(_)) => CallR::Timeout,
        Err(CallError::ServerDown(r)) => CallR::Down(r.into()),
    }
}

pub async fn call<D: Into<Dest>>(d: D, q: Q, t: Option<u64>) -> CallR {
    call_r(Srv::call(d, q, t.map(ms)).await)
}

/// Starts a server from a helper process that ends afterwards.
pub fn start_server(s: &Srv, options: GenServerOptions) -> Pid {
    let out: Shared<Option<Pid>> = Shared::new(None);
    let (s, o) = (s.clone(), out.clone());
    proc("starter", async move {
        o.set(s.start(options).await.ok());
    });
    mc::settle();
    out.get().expect("server started")
}

