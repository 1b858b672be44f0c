//! Several nodes in one program: each has its own copy of hydra's tables, they talk over the virtual network.

pub use crate::util::*;
pub use std::net::SocketAddr;
pub use std::rc::Rc;
pub use tokio::net::mcnet;

pub fn addr(n: usize) -> SocketAddr {
    SocketAddr::from(([127, 0, 0, 1], 1000 + n as u16))
}

pub fn name(n: usize) -> &'static str {
    ["n0", "n1", "n2", "n3"][n]
}

pub fn node_of(n: usize) -> Node {
    Node::from((name(n), addr(n)))
}

/// Runs `f` on another node.
pub fn on<R>(n: usize, f: impl FnOnce() -> R) -> R {
    let old = mc::node();
    mc::set_node(n);
    let r = f();
    mc::set_node(old);
    r
}

pub fn opts(n: usize) -> NodeOptions {
    NodeOptions::new().listen_address(addr(n)).broadcast_address(addr(n))
}

/// Starts node `n`.
pub fn up(n: usize) -> Pid {
    let p = on(n, || Node::start(name(n), opts(n)));
    UP.with(|u| u.borrow_mut().insert(n, p));
    p
}

thread_local! {
    static UP: std::cell::RefCell<BTreeMap<usize, Pid>> = Default::default();
}

/// Kills the process that stands for node `n`.
pub fn kill_node(n: usize) {
    let p = UP.with(|u| u.borrow()[&n]);
    proc_on(n, "killer", async move { Process::exit(p, ExitReason::Kill) });
}

/// Stops node `n`.
pub fn down(n: usize) {
    proc_on(n, "stop", async { Node::stop() });
    mc::settle();
}

/// A process of node `n`.
pub fn proc_on<F: Future<Output = ()> + 'static>(n: usize, name: &'static str, f: F) -> Pid {
    on(n, || proc(name, f))
}

/// An agent on a node.
#[derive(Clone)]
pub struct Rem {
    pub n: usize,
    pub a: Agent,
    pub pid: Pid,
}

impl Rem {
    pub fn spawn(n: usize, name: &'static str) -> Rem {
        let a = on(n, || Agent::spawn(name));
        Rem { n, pid: a.pid, a }
    }
    pub fn call<R: 'static>(&self, f: impl FnOnce() -> R + 'static) -> Option<R> {
        on(self.n, || self.a.call(f))
    }
    pub fn exec<F, Fut, R>(&self, f: F) -> Option<R>
    where
        F: FnOnce() -> Fut + 'static,
        Fut: Future<Output = R> + 'static,
        R: 'static,
    {
        on(self.n, || self.a.exec(f))
    }
    pub fn post<F, Fut>(&self, f: F)
    where
        F: FnOnce() -> Fut + 'static,
        Fut: Future<Output = ()> + 'static,
    {
        self.a.post(f)
    }
    pub fn events(&self) -> Vec<Ev> {
        self.exec(|| events()).unwrap_or_default()
    }
    pub fn alive(&self) -> bool {
        alive_on(self.n, self.pid)
    }
    /// The identifier of this process on another node.
    pub fn pid_on(&self, n: usize) -> Pid {
        move_to(self.n, n, &self.pid)
    }
}

pub fn alive_on(n: usize, pid: Pid) -> bool {
    on(n, || Process::alive(pid))
}

/// Hands a value from one node to another like a message does.
pub fn move_to<T: Serialize + serde::de::DeserializeOwned>(from: usize, to: usize, v: &T) -> T {
    let bytes = on(from, || rmp_serde::to_vec_named(v).unwrap());
    on(to, || rmp_serde::from_slice(&bytes).unwrap())
}

/// The state of node `other` on node `n`.
pub fn state(n: usize, other: usize) -> Option<NodeState> {
    on(n, || {
        [NodeState::Connected, NodeState::Pending, NodeState::Known]
            .into_iter()
            .find(|s| Node::list_by_state(*s).contains(&node_of(other)))
    })
}

pub fn connected(n: usize, other: usize) -> bool {
    state(n, other) == Some(NodeState::Connected)
}

/// Connects two nodes, before the exploration.
pub fn connect(a: &Rem, b: usize) {
    a.call(move || Node::connect(node_of(b)));
    mc::settle();
    check!(connected(a.n, b) && connected(b, a.n), "not-connected", "{:?} {:?}", state(a.n, b), state(b, a.n));
}

/// Two connected nodes with a process each.
pub fn pair() -> (Rem, Rem) {
    up(0);
    up(1);
    let (a, b) = (Rem::spawn(0, "a"), Rem::spawn(1, "b"));
    mc::settle();
    connect(&a, 1);
    (a, b)
}

/// The panics with which the processes of a connection end.
pub const CONN: [&str; 12] = [
    "Remote node timed out",
    "Remote node went down",
    "Failed to receive a message from the remote node",
    "Failed to send a message to the remote node",
    "Failed to send multiple messages to the remote node",
    "Not accepting node supervisor",
    "Failed to connect to the node",
    "Timed out while connecting",
    "hello handshake packet",
    "Node was not the expected node",
    "Node handshake failed validation",
    "Local node not started",
];

/// The end of a connection is none of its users' business.
pub fn quiet_conn() {
    no_stray_panics(&CONN);
}

// -- bytes on the wire --------------------------------------------------------------------------

pub use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{tcp, TcpListener, TcpStream};

/// Sees (connection, direction, offset, bytes) and may change the bytes; `false` ends the connection.
pub type Tamper = Rc<dyn Fn(usize, usize, u64, &mut Vec<u8>) -> bool>;

async fn pump(conn: usize, dir: usize, mut r: tcp::OwnedReadHalf, mut w: tcp::OwnedWriteHalf, f: Tamper) {
    let mut at = 0;
    loop {
        let mut b = vec![0; 1 << 16];
        let Ok(n @ 1..) = r.read(&mut b).await else { return };
        b.truncate(n);
        let go = f(conn, dir, at, &mut b);
        at += n as u64;
        if w.write_all(&b).await.is_err() || !go {
            return;
        }
    }
}

/// Passes on what arrives at `listen` to `target`, and back, through `f`.
pub fn relay(listen: SocketAddr, target: SocketAddr, f: Tamper) {
    on(3, || {
        task("relay", async move {
            let l = TcpListener::bind(listen).await.unwrap();
            for n in 0.. {
                let (s, _) = l.accept().await.unwrap();
                let f = f.clone();
                task("relayed", async move {
                    let Ok(d) = TcpStream::connect(target).await else { return };
                    let ((sr, sw), (dr, dw)) = (s.into_split(), d.into_split());
                    tokio::select! {
                        _ = pump(n, 0, sr, dw, f.clone()) => {}
                        _ = pump(n, 1, dr, sw, f) => {}
                    }
                });
            }
        })
    })
}

/// A connection in the hands of the driving task.
pub struct Raw(pub Option<TcpStream>);

impl Raw {
    pub fn connect(to: SocketAddr) -> Raw {
        let slot = Shared::new(None);
        let s2 = slot.clone();
        mc::block_on(AssertSend(async move { s2.set(Some(TcpStream::connect(to).await.unwrap())) }));
        Raw(slot.with(|s| s.take()))
    }
    pub fn send(&mut self, bytes: &[u8]) -> bool {
        let (ok, mut s, b) = (Shared::new(false), self.0.take().unwrap(), bytes.to_vec());
        let (slot, ok2) = (Shared::new(None), ok.clone());
        let s2 = slot.clone();
        mc::block_on(AssertSend(async move {
            ok2.set(s.write_all(&b).await.is_ok());
            s2.set(Some(s));
        }));
        self.0 = slot.with(|s| s.take());
        ok.get()
    }
    /// What has arrived, and whether the other end is closed.
    pub fn read(&mut self) -> (Vec<u8>, bool) {
        let mut s = self.0.take().unwrap();
        let (slot, out) = (Shared::new(None), Shared::new((vec![], false)));
        let (s2, o2) = (slot.clone(), out.clone());
        mc::block_on(AssertSend(async move {
            loop {
                let mut b = vec![0; 1 << 16];
                let n = match poll_once(s.read(&mut b)).await {
                    None => break,
                    Some(Ok(n @ 1..)) => n,
                    Some(_) => {
                        o2.with(|o| o.1 = true);
                        break;
                    }
                };
                o2.with(|o| o.0.extend(&b[..n]));
            }
            s2.set(Some(s));
        }));
        self.0 = slot.with(|s| s.take());
        out.get()
    }
    pub fn close(&mut self) {
        drop(self.0.take());
    }
}

/// A listening socket in the hands of the driving task.
pub struct RawListener(Rc<TcpListener>);

impl RawListener {
    pub fn bind(a: SocketAddr) -> RawListener {
        let slot = Shared::new(None);
        let s2 = slot.clone();
        mc::block_on(AssertSend(async move { s2.set(Some(Rc::new(TcpListener::bind(a).await.unwrap()))) }));
        RawListener(slot.with(|s| s.take()).unwrap())
    }
    pub fn accept(&self) -> Option<Raw> {
        let (l, slot) = (self.0.clone(), Shared::new(None));
        let s2 = slot.clone();
        mc::block_on(AssertSend(async move {
            if let Some(Ok((s, _))) = poll_once(l.accept()).await {
                s2.set(Some(s));
            }
        }));
        slot.with(|s| s.take()).map(|s| Raw(Some(s)))
    }
}

/// The first frame of node `n`, which has to be up.
pub fn hello_of(n: usize) -> Vec<u8> {
    let mut raw = Raw::connect(addr(n));
    mc::settle();
    let (b, closed) = raw.read();
    check!(!closed && !b.is_empty(), "no-hello", "node {} sent {:?}", n, b);
    raw.close();
    mc::settle();
    b
}

// -- cookies: a plain static of the program, here every node has its own ---------------------------

static mut COOKIES: [Option<&'static str>; 8] = [None; 8];

fn apply_cookie(n: usize) {
    #[allow(static_mut_refs)]
    match unsafe { COOKIES[n] } {
        Some(c) => Node::set_cookie(c),
        None => Node::clear_cookie(),
    }
}

/// The cookie of node `n` from now on.
pub fn cookie(n: usize, c: Option<&'static str>) {
    mc::point(mc::node_res(n), mc::Acc::Write);
    unsafe { COOKIES[n] = c };
    mc::on_node_switch(apply_cookie);
}
