//! C31: a websocket handler sees its connection's messages in order and ends exactly once.

use crate::dist::*;
use hydra::{ChildSpec, GenServer, GenServerOptions, Supervisor, SupervisorOptions};
use hydra_websockets::*;
use std::cell::RefCell;

pub fn scenarios() -> Vec<Scenario> {
    vec![talk(), endings(), pings(), ending_race(), accepting(), deadline(), durations(), limits(), server(), busy(), supervised()]
}

// -- the handler: what it does is in the path of the request and the texts it gets -----------------

#[derive(Debug, Clone, PartialEq)]
enum L {
    Init,
    Text(String),
    Bin(usize),
    Ping(Vec<u8>),
    Pong(Vec<u8>),
    Close(Option<u16>, String),
    Info(u32),
    Other,
    Term(ExitR),
    Dropped,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum W {
    N(u32),
    S(String),
}

#[derive(Default)]
struct World {
    log: Vec<(String, L)>,
    pids: Vec<(String, Pid)>,
}

thread_local! {
    static WORLD: RefCell<World> = RefCell::new(World::default());
}

fn fresh() {
    WORLD.with(|w| *w.borrow_mut() = World::default());
}

fn log_of(path: &str) -> Vec<L> {
    WORLD.with(|w| w.borrow().log.iter().filter(|(p, _)| p == path).map(|(_, l)| l.clone()).collect())
}

fn pid_of(path: &str) -> Option<Pid> {
    WORLD.with(|w| w.borrow().pids.iter().find(|(p, _)| p == path).map(|(_, l)| *l))
}

fn handlers() -> usize {
    WORLD.with(|w| w.borrow().pids.len())
}

struct H(String);

impl Drop for H {
    fn drop(&mut self) {
        self.put(L::Dropped);
    }
}

type Out = Result<Option<WebsocketCommands>, ExitReason>;

impl H {
    fn put(&self, l: L) {
        WORLD.with(|w| w.borrow_mut().log.push((self.0.clone(), l)));
    }
    /// The commands of a word: the same for what arrives from the socket and from processes.
    async fn act(&self, what: &str) -> Out {
        let mut c = WebsocketCommands::new();
        match what {
            "none" => return Ok(None),
            "empty" => {}
            "close" => {
                c.send("before");
                c.close(CloseCode::Library(4001), "bye");
                c.send("after");
                c.close(CloseCode::Library(4002), "again");
            }
            // A close frame like any other message: the handler goes on until the client has closed as well.
            "closing" => c.send(WebsocketMessage::Close(None)),
            "stop" => return Err(ExitReason::from("stopped")),
            "normal" => return Err(ExitReason::Normal),
            "panic" => panic!("boom"),
            "slow" => {
                Process::sleep(ms(500)).await;
                c.send("slept");
            }
            "three" => {
                c.send("1");
                c.send(WebsocketMessage::binary(vec![2]));
                c.send("3");
            }
            _ => c.send(format!("re:{}", what)),
        }
        Ok(Some(c))
    }
}

impl WebsocketHandler for H {
    type Message = W;

    fn accept(_: SocketAddr, request: &WebsocketRequest, mut response: WebsocketResponse) -> Result<(WebsocketResponse, Self), ExitReason> {
        let path = request.uri().path().to_string();
        if path.starts_with("/deny") {
            return Err(ExitReason::from("denied"));
        }
        response.headers_mut().insert("x-path", path.parse().unwrap());
        Ok((response, H(path)))
    }

    fn websocket_init(&mut self) -> impl Future<Output = Out> + Send {
        AssertSend(async move {
            self.put(L::Init);
            WORLD.with(|w| w.borrow_mut().pids.push((self.0.clone(), Process::current())));
            match self.0.rsplit_once('-') {
                Some((_, word)) => self.act(word).await,
                None => Ok(None),
            }
        })
    }

    fn websocket_handle(&mut self, message: WebsocketMessage) -> impl Future<Output = Out> + Send {
        AssertSend(async move {
            let word = match &message {
                WebsocketMessage::Text(t) => {
                    self.put(L::Text(t.to_string()));
                    t.to_string()
                }
                WebsocketMessage::Binary(b) => {
                    self.put(L::Bin(b.len()));
                    "none".into()
                }
                WebsocketMessage::Ping(b) => {
                    self.put(L::Ping(b.to_vec()));
                    "none".into()
                }
                WebsocketMessage::Pong(b) => {
                    self.put(L::Pong(b.to_vec()));
                    "none".into()
                }
                WebsocketMessage::Close(f) => {
                    self.put(match f {
                        Some(f) => L::Close(Some(f.code.into()), f.reason.to_string()),
                        None => L::Close(None, String::new()),
                    });
                    match f {
                        Some(f) if f.reason.starts_with("do:") => f.reason[3..].to_string(),
                        _ => "none".into(),
                    }
                }
                _ => {
                    self.put(L::Other);
                    "none".into()
                }
            };
            self.act(&word).await
        })
    }

    fn websocket_info(&mut self, info: Message<W>) -> impl Future<Output = Out> + Send {
        AssertSend(async move {
            match info {
                Message::User(W::N(n)) => {
                    self.put(L::Info(n));
                    self.act(&format!("i{}", n)).await
                }
                Message::User(W::S(s)) => self.act(&s).await,
                _ => {
                    self.put(L::Other);
                    Ok(None)
                }
            }
        })
    }

    fn terminate(&mut self, reason: ExitReason) -> impl Future<Output = ()> + Send {
        AssertSend(async move {
            self.put(L::Term(reason.into()));
            if self.0.starts_with("/lazy") {
                tokio::task::yield_now().await;
            }
        })
    }
}

// -- a client in the hands of the driving task ------------------------------------------------------

const AT: usize = 5;

struct Ws {
    raw: Raw,
    got: Vec<u8>,
    closed: bool,
}

#[derive(Debug, Clone, PartialEq)]
enum Fr {
    Text(String),
    Bin(Vec<u8>),
    Ping(Vec<u8>),
    Pong(Vec<u8>),
    Close(u16, String),
    Odd(u8),
}

fn request(path: &str) -> String {
    format!(
        "GET {} HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n",
        path
    )
}

/// A client's frame.
fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut b = vec![first];
    match body.len() {
        n @ 0..=125 => b.push(0x80 | n as u8),
        n => {
            b.push(0x80 | 126);
            b.extend((n as u16).to_be_bytes());
        }
    }
    let mask = [1, 2, 3, 4];
    b.extend(mask);
    b.extend(body.iter().enumerate().map(|(i, c)| c ^ mask[i % 4]));
    b
}

fn text(t: &str) -> Vec<u8> {
    frame(0x81, t.as_bytes())
}

fn bye(code: u16, why: &str) -> Vec<u8> {
    let mut b = code.to_be_bytes().to_vec();
    b.extend(why.bytes());
    frame(0x88, &b)
}

impl Ws {
    fn dial(path: &str) -> Ws {
        let mut raw = Raw::connect(addr(AT));
        raw.send(request(path).as_bytes());
        Ws { raw, got: vec![], closed: false }
    }
    fn send(&mut self, b: &[u8]) -> bool {
        self.raw.send(b)
    }
    fn text(&mut self, t: &str) -> bool {
        self.send(&text(t))
    }
    fn pull(&mut self) {
        let (b, closed) = self.raw.read();
        self.got.extend(b);
        self.closed |= closed;
    }
    /// The head of the response, taken from what has arrived.
    fn head(&mut self) -> Option<String> {
        self.pull();
        let end = self.got.windows(4).position(|w| w == b"\r\n\r\n")? + 4;
        Some(String::from_utf8(self.got.drain(..end).collect()).unwrap())
    }
    /// The frames that have arrived, entirely.
    fn frames(&mut self) -> Vec<Fr> {
        self.pull();
        let mut out = vec![];
        loop {
            let g = &self.got;
            if g.len() < 2 {
                break;
            }
            let (at, n) = match g[1] {
                n @ 0..=125 => (2, n as usize),
                126 if g.len() >= 4 => (4, u16::from_be_bytes([g[2], g[3]]) as usize),
                126 => break,
                _ => mc::violation("frame", "the server sent a masked or huge frame"),
            };
            if g.len() < at + n {
                break;
            }
            let (op, body) = (g[0], g[at..at + n].to_vec());
            out.push(match op {
                0x81 => Fr::Text(String::from_utf8(body).unwrap()),
                0x82 => Fr::Bin(body),
                0x88 if n >= 2 => Fr::Close(u16::from_be_bytes([body[0], body[1]]), String::from_utf8_lossy(&body[2..]).into()),
                0x88 => Fr::Close(0, String::new()),
                0x89 => Fr::Ping(body),
                0x8a => Fr::Pong(body),
                o => Fr::Odd(o),
            });
            self.got.drain(..at + n);
        }
        out
    }
    /// Connected, with the handler running.
    fn open(path: &str) -> Ws {
        let mut ws = Ws::dial(path);
        mc::settle();
        ws.upgraded(path);
        ws
    }
    fn upgraded(&mut self, path: &str) {
        let Some(head) = self.head() else { mc::violation("upgrade", "no answer to a request") };
        check!(head.starts_with("HTTP/1.1 101 "), "upgrade", "{}", head);
        let low = head.to_lowercase();
        check!(head.contains("s3pPLMBiTxaQ9kYGzzhZRbK+xOo="), "upgrade", "{}", head);
        check!(low.contains(&format!("x-path: {}", path)), "upgrade", "the response of accept isn't the one sent: {}", head);
    }
}

fn send(pid: Pid, w: W) {
    proc("tell", async move { Process::send(pid, w) });
}

fn t(s: &str) -> Fr {
    Fr::Text(s.into())
}

fn config() -> WebsocketServerConfig {
    WebsocketServerConfig::new(addr(AT))
}

fn serve(c: WebsocketServerConfig) -> Pid {
    let slot = Shared::new(None);
    let s2 = slot.clone();
    proc("starter", async move {
        s2.set(Some(WebsocketServer::<H>::new(c).start(GenServerOptions::new()).await));
    });
    mc::settle();
    slot.with(|s| s.take()).unwrap().unwrap()
}

/// Everything the handler at `path` logged is as it has to be once it ended for `reason`;
/// `told`: whether terminate had to be called.
fn ended(path: &str, reason: &ExitR, told: bool) -> Vec<L> {
    let mut log = log_of(path);
    check!(log.first() == Some(&L::Init), "init-first", "{}: {:?}", path, log);
    check!(log.iter().filter(|l| **l == L::Init).count() == 1, "init-once", "{}: {:?}", path, log);
    check!(log.pop() == Some(L::Dropped), "after-end", "{}: the handler isn't gone, or did something after its end: {:?}", path, log_of(path));
    let terms: Vec<_> = log.iter().filter(|l| matches!(l, L::Term(_))).cloned().collect();
    check!(terms.len() <= 1, "terminate-twice", "{}: {:?}", path, log);
    if told {
        check!(terms.len() == 1, "terminate-missing", "{}: ended for {:?}: {:?}", path, reason, log);
    }
    if let Some(L::Term(r)) = terms.first() {
        check!(r == reason, "reason", "{}: terminate got {:?}, a monitor {:?}", path, r, reason);
        check!(matches!(log.pop(), Some(L::Term(_))), "after-terminate", "{}: {:?}", path, log_of(path));
    }
    log
}

fn down_reason(a: &Agent) -> Option<ExitR> {
    let log = a.exec(|| async { events().await }).unwrap();
    check!(log.len() <= 1, "down-twice", "{:?}", log);
    log.into_iter().next().map(|e| match e {
        Ev::Down(_, _, r) => r,
        e => mc::violation("down", &format!("{:?}", e)),
    })
}

fn watch(path: &str) -> Agent {
    let a = Agent::spawn("watcher");
    let pid = pid_of(path).unwrap();
    a.call(move || Process::monitor(pid));
    mc::settle();
    a
}

/// Still serves: a new connection gets its answers.
fn serves(path: &'static str) {
    let mut ws = Ws::open(path);
    ws.text("alive?");
    mc::settle();
    let got = ws.frames();
    check!(got == vec![t("re:alive?")], "serves", "{}: {:?}", path, got);
    ws.send(&bye(1000, ""));
    mc::settle();
}

// -- scenarios ------------------------------------------------------------------------------------------

/// What the client and a process send, at the same time, arrives in order and is answered in order.
fn talk() -> Scenario {
    sc("talk", (2, 3), 2).chunks().run(|| {
        mc::setup_begin();
        fresh();
        serve(config());
        let mut ws = Ws::dial("/a-hello");
        let mut other = Ws::open("/b");
        mc::settle();
        ws.upgraded("/a-hello");
        let pid = pid_of("/a-hello").unwrap();
        let w = watch("/a-hello");
        mc::setup_end();
        mc::explore();
        let p = Agent::spawn("sender");
        p.post(move || async move {
            Process::send(pid, W::N(1));
            Process::send(pid, W::S("three".into()));
            Process::send(pid, W::N(2));
        });
        ws.text("x");
        ws.send(&frame(0x89, b"pp"));
        other.text("o");
        // One text in two fragments with a ping in between.
        ws.send(&[frame(0x01, b"y"), frame(0x89, b"q"), frame(0x80, b"z")].concat());
        ws.send(&bye(1000, "done"));
        mc::settle();
        let got = ws.frames();
        let r = down_reason(&w);
        check!(r == Some("connection_closed".into()), "reason", "{:?}", r);
        let log = ended("/a-hello", &r.unwrap(), true);
        let sock: Vec<_> = log.iter().filter(|l| !matches!(l, L::Info(_) | L::Init)).cloned().collect();
        let want = vec![
            L::Text("x".into()),
            L::Ping(b"pp".to_vec()),
            L::Ping(b"q".to_vec()),
            L::Text("yz".into()),
            L::Close(Some(1000), "done".into()),
        ];
        check!(sock == want, "socket-order", "{:?}", log);
        let infos: Vec<_> = log.iter().filter(|l| matches!(l, L::Info(_))).cloned().collect();
        check!([L::Info(1), L::Info(2)].starts_with(&infos), "info-order", "{:?}", log);
        // The answers are those of the callbacks, in their order.
        let mut expect = vec![t("re:hello")];
        for l in &log {
            match l {
                L::Text(x) => expect.push(t(&format!("re:{}", x))),
                L::Info(n) => expect.push(t(&format!("re:i{}", n))),
                L::Ping(b) => expect.push(Fr::Pong(b.clone())),
                _ => {}
            }
        }
        let threes = got.iter().filter(|f| **f == Fr::Bin(vec![2])).count();
        let mut plain: Vec<_> = got.clone();
        if let Some(i) = got.iter().position(|f| *f == Fr::Bin(vec![2])) {
            check!(i > 0 && got.get(i - 1) == Some(&t("1")) && got.get(i + 1) == Some(&t("3")), "split-commands", "{:?}", got);
            plain.drain(i - 1..i + 2);
        }
        check!(threes <= 1 && (threes == 1 || !infos.contains(&L::Info(2))), "info-lost", "{:?} {:?}", got, log);
        let close = plain.pop();
        check!(matches!(close, Some(Fr::Close(1000, _))), "close-answer", "{:?}", got);
        check!(plain == expect, "answers", "the client got {:?}, the callbacks were {:?}", got, log);
        check!(ws.closed, "still-open", "the connection outlives its handler");
        let o = other.frames();
        check!(o == vec![t("re:o")], "other", "{:?}", o);
        check!(log_of("/b") == vec![L::Init, L::Text("o".into())], "other", "{:?}", log_of("/b"));
        no_stray_panics(&[]);
        mc::outcome((format!("{:?}", log), threes));
    })
}

/// Every way a connection or its handler can end.
fn endings() -> Scenario {
    seq("endings", 60).run(|| {
        mc::settle();
        mc::explore();
        fresh();
        serve(config());
        let how = mc::choose(28);
        let before = mc::choose(3);
        let lazy = mc::choose(2) == 1;
        let path: String = match how {
            0 => "/x-stop".into(),
            1 => "/x-normal".into(),
            2 => "/x-close".into(),
            3 => "/x-panic".into(),
            _ => "/x-hello".into(),
        };
        let path = if lazy { path.replace("/x", "/lazy") } else { path };
        let mut other = Ws::open("/other");
        let mut ws = Ws::dial(&path);
        let w = if how < 4 {
            // The handler ends before anybody can watch it.
            None
        } else {
            mc::settle();
            Some(watch(&path))
        };
        mc::settle();
        ws.upgraded(&path);
        let pid = pid_of(&path).unwrap();
        let mut want: Vec<Fr> = if how >= 4 { vec![t("re:hello")] } else { vec![] };
        if how >= 4 {
            for n in 0..before {
                if n == 0 {
                    ws.text("b0");
                    want.push(t("re:b0"));
                } else {
                    send(pid, W::N(7));
                    want.push(t("re:i7"));
                }
                mc::settle();
            }
        }
        let closing = |want: &mut Vec<Fr>| {
            want.push(t("before"));
            want.push(Fr::Close(4001, "bye".into()));
        };
        // The reason; None: any, as long as it's the same for everybody.
        let mut told = true;
        let mut close_sent = None;
        let reason: Option<ExitR> = match how {
            0 => Some("stopped".into()),
            1 => Some(ExitR::Normal),
            2 => {
                closing(&mut want);
                Some(ExitR::Normal)
            }
            3 => {
                told = false;
                None
            }
            4 => {
                ws.text("stop");
                Some("stopped".into())
            }
            5 => {
                ws.text("normal");
                Some(ExitR::Normal)
            }
            6 => {
                ws.send(&[text("close"), text("never")].concat());
                closing(&mut want);
                Some(ExitR::Normal)
            }
            7 => {
                ws.text("panic");
                told = false;
                None
            }
            8 => {
                send(pid, W::S("stop".into()));
                Some("stopped".into())
            }
            9 => {
                send(pid, W::S("close".into()));
                closing(&mut want);
                Some(ExitR::Normal)
            }
            10 => {
                signal(pid, "killed");
                told = false;
                Some("killed".into())
            }
            11 => {
                signal(pid, ExitReason::Kill);
                told = false;
                Some(ExitR::Kill)
            }
            12 => {
                ws.send(&bye(1001, "going"));
                close_sent = Some((1001, "going"));
                Some("connection_closed".into())
            }
            13 => {
                ws.send(&frame(0x88, b""));
                close_sent = Some((0, ""));
                Some("connection_closed".into())
            }
            14 => {
                ws.raw.close();
                None
            }
            15 => {
                ws.send(&text("half")[..5]);
                ws.raw.close();
                None
            }
            16 => {
                // A reserved opcode.
                ws.send(&frame(0x83, b"x"));
                None
            }
            17 => {
                ws.send(&frame(0x81, &[0xff, 0xfe]));
                Some("utf8_error".into())
            }
            18 => {
                // A continuation of nothing.
                ws.send(&frame(0x80, b"x"));
                None
            }
            19 => {
                // Not masked.
                ws.send(&[0x81, 1, b'x']);
                None
            }
            20 => {
                // The handler answers a close with a message: too late, but it ends all the same.
                ws.send(&bye(1000, "do:answer"));
                None
            }
            21 => {
                ws.send(&bye(1000, "do:close"));
                None
            }
            22 => {
                ws.send(&bye(1000, "do:stop"));
                Some("stopped".into())
            }
            24..=26 => {
                if how == 25 {
                    send(pid, W::S("closing".into()));
                } else {
                    ws.text("closing");
                }
                want.push(Fr::Close(0, String::new()));
                mc::settle();
                check!(Process::alive(pid), "ended-early", "way {}: {:?}", how, log_of(&path));
                match how {
                    24 => ws.send(&frame(0x88, b"")),
                    25 => ws.send(&bye(1000, "")),
                    _ => {
                        ws.raw.close();
                        true
                    }
                };
                None
            }
            27 => {
                ws.text("closing");
                want.push(Fr::Close(0, String::new()));
                mc::settle();
                signal(pid, ExitReason::from("signal"));
                told = false;
                Some("signal".into())
            }
            _ => {
                // The close of the handler meets that of the client.
                send(pid, W::S("close".into()));
                ws.send(&bye(1001, "going"));
                None
            }
        };
        mc::settle();
        mc::settle_for(2 * SEC);
        let alive = Process::alive(pid);
        check!(!alive, "alive", "way {}: the handler goes on: {:?}", how, log_of(&path));
        let got = w.as_ref().and_then(down_reason);
        check!(w.is_none() || got.is_some(), "no-down", "way {}", how);
        let real = match (&got, &reason) {
            (Some(g), Some(r)) => {
                check!(g == r, "reason", "way {}: {:?} instead of {:?}", how, g, r);
                g.clone()
            }
            (Some(g), None) => g.clone(),
            (None, Some(r)) => r.clone(),
            (None, None) => ExitR::Ignore,
        };
        let log = ended(&path, &real, told);
        if !told {
            check!(!log.iter().any(|l| matches!(l, L::Term(_))), "terminate", "way {}: {:?}", how, log);
        }
        check!(!log.contains(&L::Text("never".into())), "after-end", "way {}: {:?}", how, log);
        if how != 14 && how != 15 && how != 26 {
            let f = ws.frames();
            check!(ws.closed, "still-open", "way {}", how);
            check!(f.starts_with(&want), "answers", "way {}: {:?} instead of {:?}", how, f, want);
            let rest = &f[want.len()..];
            let fine = match close_sent {
                Some((code, _)) => matches!(rest, [Fr::Close(c, _)] if *c == code),
                None if how == 23 => matches!(rest, [] | [Fr::Close(..)]) || rest == [t("before"), Fr::Close(4001, "bye".into())],
                None if matches!(how, 20 | 21 | 22) => matches!(rest, [] | [Fr::Close(..)]),
                None if matches!(how, 16..=19) => matches!(rest, [] | [Fr::Close(..)]),
                None => rest.is_empty(),
            };
            check!(fine, "close-answer", "way {}: {:?}", how, f);
        }
        // Nobody else noticed.
        other.text("o");
        mc::settle();
        let o = other.frames();
        check!(o == vec![t("re:o")], "other", "way {}: {:?}", how, o);
        serves("/later");
        no_stray_panics(&[]);
        mc::outcome((how, before, lazy, format!("{:?}", real)));
    })
}

/// Pings and pongs of every size: handed over, and pings answered with what they carry.
fn pings() -> Scenario {
    seq("pings", 250).run(|| {
        mc::settle();
        mc::explore();
        fresh();
        serve(config());
        let (n, ping) = (mc::choose(126), mc::choose(2) == 1);
        let mut ws = Ws::open("/p");
        let body: Vec<u8> = (0..n as u8).collect();
        ws.send(&frame(if ping { 0x89 } else { 0x8a }, &body));
        ws.text("x");
        mc::settle();
        let mut want = if ping { vec![Fr::Pong(body.clone())] } else { vec![] };
        want.push(t("re:x"));
        let f = ws.frames();
        check!(f == want, "answers", "{} bytes, ping {}: {:?}", n, ping, f);
        let l = log_of("/p");
        check!(l == vec![L::Init, if ping { L::Ping(body) } else { L::Pong(body) }, L::Text("x".into())], "socket-order", "{:?}", l);
        no_stray_panics(&[]);
        mc::outcome((n, ping));
    })
}

/// Two of the ends at once: one of them counts.
fn ending_race() -> Scenario {
    sc("ending-race", (2, 3), 6).run(|| {
        mc::setup_begin();
        fresh();
        serve(config());
        let mut ws = Ws::open("/lazy");
        let pid = pid_of("/lazy").unwrap();
        let w = watch("/lazy");
        mc::setup_end();
        mc::explore();
        let (x, y) = (mc::choose(4), mc::choose(3));
        let p = Agent::spawn("sender");
        p.post(move || async move {
            match y {
                0 => Process::send(pid, W::S("stop".into())),
                1 => Process::send(pid, W::S("close".into())),
                _ => Process::exit(pid, "signal"),
            }
        });
        match x {
            0 => ws.text("stop"),
            1 => ws.text("close"),
            2 => ws.send(&bye(1000, "")),
            _ => {
                ws.raw.close();
                true
            }
        };
        mc::settle();
        check!(!Process::alive(pid), "alive", "{} {}: {:?}", x, y, log_of("/lazy"));
        let Some(r) = down_reason(&w) else { mc::violation("no-down", "no down message") };
        let of_x: &[ExitR] = &[["stopped".into()], [ExitR::Normal], ["connection_closed".into()], [r.clone()]][x];
        let of_y: &ExitR = &["stopped".into(), ExitR::Normal, "signal".into()][y];
        let sig = y == 2 && r == "signal".into();
        // A close meets a close: the socket may be done before the handler's close is.
        let mixed = y == 1 || x == 1;
        check!(of_x.contains(&r) || *of_y == r || mixed, "reason", "{} {}: {:?}", x, y, r);
        if sig {
            // An exit signal may end it at any point, in terminate even.
            let log = log_of("/lazy");
            check!(log.iter().filter(|l| matches!(l, L::Term(_))).count() <= 1, "terminate-twice", "{:?}", log);
            check!(log.last() == Some(&L::Dropped), "after-end", "{:?}", log);
        } else {
            ended("/lazy", &r, true);
        }
        if x < 3 {
            let f = ws.frames();
            check!(ws.closed, "still-open", "{} {}", x, y);
            let closes = f.iter().filter(|f| matches!(f, Fr::Close(..))).count();
            check!(closes <= 1 && !f.contains(&t("after")), "closes", "{} {}: {:?}", x, y, f);
        }
        no_stray_panics(&[]);
        mc::outcome((x, y, format!("{:?}", r)));
    })
}

/// Requests, good and bad, in all orders: each gets its answer, and has a handler only if accepted.
fn accepting() -> Scenario {
    seq("accepting", 20).run(|| {
        mc::settle();
        mc::explore();
        fresh();
        serve(config());
        let mut ends = vec![];
        let n = if thorough() { 3 } else { 2 };
        let paths = ["/p0", "/p1", "/p2"];
        let mut all = vec![];
        for (i, path) in paths.iter().enumerate().take(n) {
            let kind = mc::choose(8);
            let together = mc::choose(2) == 1;
            let mut raw = Raw::connect(addr(AT));
            let req = match kind {
                0 => request(path),
                1 => request(&format!("/deny{}", i)),
                2 => "GET / HTTP/1.1\r\nHost: h\r\n\r\n".to_string(),
                3 => "nonsense\r\n\r\n".to_string(),
                4 => request(path).replace("Version: 13", "Version: 12"),
                5 => String::new(),
                6 => request(path)[..40].to_string(),
                _ => request(path),
            };
            if kind == 7 {
                for piece in req.as_bytes().chunks(37) {
                    raw.send(piece);
                    mc::settle();
                }
            } else if !req.is_empty() {
                raw.send(req.as_bytes());
            }
            if kind == 6 {
                raw.close();
            }
            if !together {
                mc::settle();
            }
            all.push(kind);
            ends.push((kind, path, Ws { raw, got: vec![], closed: false }));
        }
        mc::settle();
        let mut want = 0;
        for (kind, path, ws) in &mut ends {
            match kind {
                0 | 7 => {
                    want += 1;
                    ws.upgraded(path);
                    ws.text("q");
                    mc::settle();
                    let f = ws.frames();
                    check!(f == vec![t("re:q")], "answers", "{:?}", f);
                }
                1 => {
                    let head = ws.head();
                    check!(head.as_ref().is_some_and(|h| !h.starts_with("HTTP/1.1 101")), "denied", "{:?}", head);
                    check!(String::from_utf8_lossy(&ws.got).contains("denied"), "denied", "no reason: {:?}", ws.got);
                    check!(ws.closed, "still-open", "denied, but open");
                }
                2..=4 => {
                    ws.pull();
                    check!(!ws.got.starts_with(b"HTTP/1.1 101"), "upgrade", "kind {}: {:?}", kind, ws.got);
                    check!(ws.closed, "still-open", "kind {} is still open", kind);
                    check!(log_of(path).is_empty(), "handler", "kind {}: {:?}", kind, log_of(path));
                }
                5 => {
                    ws.pull();
                    check!(!ws.closed && ws.got.is_empty(), "mute", "a mute client without a limit: {:?}", ws.got);
                }
                _ => {}
            }
        }
        check!(handlers() == want, "handlers", "{} instead of {}", handlers(), want);
        serves("/later");
        no_stray_panics(&[]);
        mc::outcome(format!("{:?}", all));
    })
}

/// Every limit for the handshake.
fn durations() -> Scenario {
    seq("durations", 25).run(|| {
        mc::settle();
        mc::explore();
        fresh();
        let (i, late) = (mc::choose(SPANS.len() + 1), mc::choose(2) == 1);
        let limit = SPANS.get(i).copied();
        let d = limit.unwrap_or(90_000_000);
        let c = config();
        serve(match limit {
            Some(l) => c.handshake_timeout(ms(l)),
            None => c,
        });
        let req = request("/slow");
        let b = req.as_bytes();
        let mut ws = Ws { raw: Raw::connect(addr(AT)), got: vec![], closed: false };
        mc::settle();
        ws.send(&b[..10]);
        mc::settle_for((if late { d + 1 } else { d - 1 }) * MS);
        ws.pull();
        let over = late && limit.is_some();
        check!(ws.closed == over, "deadline", "limit {:?}, late {}: closed {}", limit, late, ws.closed);
        if !over {
            ws.send(&b[10..]);
            mc::settle();
            ws.pull();
            ws.upgraded("/slow");
        } else {
            check!(log_of("/slow").is_empty() && ws.got.is_empty(), "deadline", "{:?} {:?}", log_of("/slow"), ws.got);
        }
        serves("/other");
        no_stray_panics(&[]);
        mc::outcome((i, late));
    })
}

/// The time for a handshake is limited, for every client on its own, and only for the handshake.
fn deadline() -> Scenario {
    seq("deadline", 8).timers(8000).run(|| {
        mc::settle();
        mc::explore();
        fresh();
        let limited = mc::choose(4) > 0;
        let c = config();
        serve(if limited { c.handshake_timeout(ms(1000)) } else { c });
        // Bytes of the request that are sent at 0 ms, 600 ms and 1200 ms, or at 999/1001 ms the rest.
        let pace = mc::choose(5);
        let req = request("/slow");
        let b = req.as_bytes();
        let mut ws = Ws { raw: Raw::connect(addr(AT)), got: vec![], closed: false };
        let (first, second, at): (usize, usize, u64) = match pace {
            0 => (b.len(), b.len(), 0),
            1 => (10, b.len(), 990),
            2 => (10, b.len(), 1010),
            3 => (0, b.len(), 1500),
            _ => (b.len() - 1, b.len(), 3000),
        };
        mc::settle_for(mc::choose(2) as u64 * 5 * SEC / 1000);
        if first > 0 {
            ws.send(&b[..first]);
        }
        mc::settle_for(500 * SEC / 1000);
        // Somebody else, meanwhile.
        serves("/meanwhile");
        if at > 500 {
            mc::settle_for((at - 500) * SEC / 1000);
        }
        ws.pull();
        let early = ws.closed;
        if second > first {
            ws.send(&b[first..]);
        }
        mc::settle();
        ws.pull();
        let late = limited && at > 1000;
        if late {
            check!(early && ws.closed && ws.got.is_empty(), "deadline", "pace {}: open after the time for the handshake: {:?}", pace, ws.got);
            check!(log_of("/slow").is_empty(), "deadline", "{:?}", log_of("/slow"));
        } else {
            check!(!early && !ws.closed, "deadline-early", "pace {} limited {}: closed", pace, limited);
            ws.upgraded("/slow");
            mc::settle_for(3 * SEC);
            ws.text("q");
            mc::settle();
            let f = ws.frames();
            check!(f == vec![t("re:q")] && !ws.closed, "deadline-after", "pace {}: {:?}", pace, f);
        }
        serves("/later");
        no_stray_panics(&[]);
        mc::outcome((limited, pace));
    })
}

/// Messages and frames up to the limits pass, larger ones end the connection.
fn limits() -> Scenario {
    seq("limits", 20).run(|| {
        mc::settle();
        mc::explore();
        fresh();
        let (m, f) = ([None, Some(8), Some(16)][mc::choose(3)], [None, Some(8), Some(16)][mc::choose(3)]);
        serve(config().max_message_size(m).max_frame_size(f));
        let n = [7, 8, 9, 16, 17][mc::choose(5)];
        // 0: text in one frame; 1: binary in one frame; 2: in two frames.
        let kind = mc::choose(3);
        let mut ws = Ws::open("/l");
        let w = watch("/l");
        let body = vec![b'a'; n];
        let b = match kind {
            0 => frame(0x81, &body),
            1 => frame(0x82, &body),
            _ => [frame(0x02, &body[..n - 4]), frame(0x80, &body[n - 4..])].concat(),
        };
        ws.send(&b);
        mc::settle();
        let biggest = if kind == 2 { n - 4 } else { n };
        let fits = f.is_none_or(|f| biggest <= f) && m.is_none_or(|m| n <= m);
        let log = log_of("/l");
        let seen = log.iter().any(|l| matches!(l, L::Text(_) | L::Bin(_)));
        check!(seen == fits, "limit", "{} bytes, kind {}, limits {:?} {:?}: {:?}", n, kind, m, f, log);
        let r = down_reason(&w);
        check!(r.is_none() == fits, "limit-end", "{:?}", r);
        match r {
            None => {
                ws.text("q");
                mc::settle();
                check!(ws.frames().last() == Some(&t("re:q")), "limit-after", "no answer after a message that fits");
            }
            Some(r) => {
                ended("/l", &r, true);
                ws.pull();
                check!(ws.closed, "still-open", "after a message that is too large");
            }
        }
        serves("/later");
        no_stray_panics(&[]);
        mc::outcome((m, f, n, kind, fits));
    })
}

/// The server's end is that of the listener; connections are their handlers' own.
fn server() -> Scenario {
    seq("server", 10).run(|| {
        mc::settle();
        mc::explore();
        fresh();
        let how = mc::choose(5);
        let rounds = 1 + mc::choose(2);
        for _ in 0..rounds {
            let s = serve(config());
            check!(mcnet::listening().contains(&addr(AT)), "listening", "not listening");
            let mut ws = Ws::open("/s");
            match how {
                0 => signal(s, ExitReason::Kill),
                1 => signal(s, "boo"),
                2 => {
                    proc("stop", async move {
                        let _ = <WebsocketServer<H> as GenServer>::stop(s, ExitReason::Normal, None).await;
                    });
                }
                3 => {
                    proc("stop", async move {
                        let _ = <WebsocketServer<H> as GenServer>::stop(s, ExitReason::from("x"), None).await;
                    });
                }
                _ => {
                    proc("stop", async move {
                        let _ = <WebsocketServer<H> as GenServer>::stop(s, ExitReason::from("shutdown"), None).await;
                    });
                }
            }
            mc::settle();
            if how == 1 {
                // Traps exits: an exit signal of a stranger is only a message.
                check!(Process::alive(s), "trap", "ended for the signal of a stranger");
                proc("stop", async move {
                    let _ = <WebsocketServer<H> as GenServer>::stop(s, ExitReason::Normal, None).await;
                });
                mc::settle();
            }
            check!(!Process::alive(s), "alive", "how {}", how);
            check!(!mcnet::listening().contains(&addr(AT)), "listener", "how {}: the listener outlives the server", how);
            // Whether connections go on isn't said; but their handlers end at most once.
            ws.pull();
        }
        serve(config());
        serves("/later");
        no_stray_panics(&[]);
        mc::outcome((how, rounds));
    })
}

/// An address in use is an error of the start, and the server that has it goes on.
fn busy() -> Scenario {
    seq("busy", 2).run(|| {
        mc::settle();
        mc::explore();
        fresh();
        let linked = mc::choose(2) == 1;
        let first = serve(config());
        let out = Shared::new(None);
        let o2 = out.clone();
        let p = proc("second", async move {
            trap();
            let s = WebsocketServer::<H>::new(config());
            let r = if linked { s.start_link(GenServerOptions::new()).await } else { s.start(GenServerOptions::new()).await };
            o2.set(Some(r.map_err(ExitR::from)));
            std::future::pending::<()>().await
        });
        mc::settle();
        check!(Process::alive(p), "alive", "the starter ended");
        let r = out.get();
        check!(r == Some(Err("address_in_use".into())), "busy", "{:?}", r);
        check!(Process::alive(first), "first", "the first server ended");
        serves("/later");
        no_stray_panics(&[]);
        mc::outcome(linked);
    })
}

/// Under a supervisor: the server comes back, with its configuration.
fn supervised() -> Scenario {
    seq("supervised", 2).timers(60_000).run(|| {
        mc::settle();
        mc::explore();
        fresh();
        let how = mc::choose(2);
        let rounds = 1 + mc::choose(3);
        let out = Shared::new(None);
        let o2 = out.clone();
        let owner = proc("owner", async move {
            let spec: ChildSpec = WebsocketServer::<H>::new(config().handshake_timeout(ms(1000)).max_message_size(Some(32))).child_spec();
            let sup = Supervisor::new().add_child(spec).max_restarts(5).start_link(SupervisorOptions::new()).await.unwrap();
            o2.set(Some(sup));
            std::future::pending::<()>().await
        });
        mc::settle();
        let sup = out.get().unwrap();
        for i in 0..rounds {
            serves(["/r0", "/r1", "/r2"][i]);
            // Linked to the supervisor: its owner and its child.
            let k: Vec<Pid> = Process::info(sup).unwrap().links.into_iter().filter(|p| *p != owner).collect();
            check!(k.len() == 1, "children", "{:?}", k);
            let s = k[0];
            if how == 0 {
                signal(s, ExitReason::Kill);
            } else {
                proc("stop", async move {
                    let _ = <WebsocketServer<H> as GenServer>::stop(s, ExitReason::from("x"), None).await;
                });
            }
            mc::settle();
            mc::settle_for(6 * SEC);
            check!(!Process::alive(s), "alive", "how {}", how);
        }
        serves("/later");
        // Its limits are still those it was given.
        let mut ws = Ws::open("/big");
        ws.send(&frame(0x82, &[0; 40]));
        let mut mute = Ws { raw: Raw::connect(addr(AT)), got: vec![], closed: false };
        mc::settle();
        check!(!log_of("/big").contains(&L::Bin(40)), "limit", "the configuration is lost");
        mc::settle_for(2 * SEC);
        mute.pull();
        check!(mute.closed, "deadline", "the configuration is lost");
        // The end of the supervisor is the end of the listener.
        signal(if mc::choose(2) == 0 { sup } else { owner }, ExitReason::Kill);
        mc::settle();
        mc::settle_for(6 * SEC);
        check!(!Process::alive(sup), "supervisor", "is alive");
        check!(!mcnet::listening().contains(&addr(AT)), "listener", "outlives its supervisor");
        no_stray_panics(&[]);
        mc::outcome((how, rounds));
    })
}
