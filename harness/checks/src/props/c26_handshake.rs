//! C26: only who knows the cookie, and is the one expected, becomes a connected node.

use crate::dist::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![cookies(), client(), server(), spoiled(), race(), durations(), boundary()]
}

/// Different from each other in any way a cookie can be.
const COOKIES: [Option<&str>; 12] = [
    None,
    Some("a"),
    Some("b"),
    Some("ab"),
    Some("A"),
    Some("a "),
    Some(" a"),
    Some("0123456789abcdef0123456789abcdefX"),
    Some("0123456789abcdef0123456789abcdefY"),
    Some("X0123456789abcdef0123456789abcdef"),
    Some("kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkX"),
    Some("kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkY"),
];

fn limits(n: usize) -> NodeOptions {
    opts(n).handshake_timeout(ms(2000)).heartbeat_interval(ms(1000)).heartbeat_timeout(ms(3000))
}

/// Every pair of cookies, set at any time before the connection is made, and corrected later.
fn cookies() -> Scenario {
    seq("cookies", 30).run(|| {
        mc::settle();
        mc::explore();
        let (c0, c1) = (COOKIES[mc::choose(COOKIES.len())], COOKIES[mc::choose(COOKIES.len())]);
        let (late, back) = (mc::choose(2) == 1, mc::choose(2) == 1);
        if late {
            cookie(0, Some("old"));
            cookie(1, Some("old"));
        } else {
            cookie(0, c0);
            cookie(1, c1);
        }
        up(0);
        up(1);
        mc::settle();
        cookie(0, c0);
        cookie(1, c1);
        let (x, y) = if back { (1, 0) } else { (0, 1) };
        let (a, log) = (Rem::spawn(x, "a"), Shared::new(vec![]));
        let p = proc_on(y, "p", collect(log.clone()));
        on(y, || Process::register(p, "p").unwrap());
        mc::settle();
        let r = a.call(move || {
            let r = Node::monitor(node_of(y));
            Process::send(("p", node_of(y)), M::N(1));
            r
        });
        mc::settle();
        mc::settle_for(30 * SEC);
        let (s, t) = (connected(0, 1), connected(1, 0));
        let same = c0 == c1;
        check!(s == same && t == same, "connected", "cookies {:?} and {:?}: {} {}", c0, c1, s, t);
        check!(log.get().len() == same as usize, "message", "cookies {:?} and {:?}: {:?}", c0, c1, log.get());
        let down = a.events();
        let want = if same { vec![] } else { vec![Ev::NodeDown(format!("{:?}", node_of(y)), r.unwrap())] };
        check!(down == want, "node-down", "cookies {:?} and {:?}: {:?}", c0, c1, down);
        // A changed cookie doesn't end a connection, but decides on the next one.
        cookie(1, c0);
        mc::settle_for(30 * SEC);
        check!(connected(0, 1) == same, "connected", "after a change: {:?}", state(0, 1));
        connect(&a, y);
        cookie(0, Some("zz"));
        a.call(move || {
            Node::disconnect(node_of(y));
            Node::connect(node_of(y))
        });
        mc::settle();
        mc::settle_for(30 * SEC);
        check!(!connected(0, 1) && !connected(1, 0), "connected", "after the last change");
        no_stray_panics(&QUIET);
        mc::outcome((c0, c1, late, back));
    })
}

const QUIET: [&str; 12] = [
    "Remote node timed out",
    "Remote node went down",
    "Failed to receive a message from the remote node",
    "Failed to send a message to the remote node",
    "Failed to send multiple messages to the remote node",
    "hello handshake packet",
    "Option::unwrap",
    "Should never receive hello frame",
    "incorrect frame for node handshake",
    "Node handshake failed validation",
    "Node was not the expected node",
    "Not accepting node supervisor",
];

/// What a peer says first: the bytes, and whether it is right.
struct Says {
    bytes: Vec<u8>,
    right: bool,
    what: String,
}

/// The hellos that were captured before: of node 1, of node 1 with another cookie, of a node of that
/// name elsewhere, of another node at that address, and frames that are no hello.
struct Known {
    good: Vec<u8>,
    stale: Vec<u8>,
    moved: Vec<u8>,
    renamed: Vec<u8>,
    frames: Vec<u8>,
}

/// Records real frames of real nodes.
fn learn() -> Known {
    let mut hellos = vec![];
    for (c, name, listen) in [("x", "n1", 1), ("y", "n1", 1), ("x", "n1", 4), ("x", "other", 1)] {
        cookie(1, Some(c));
        on(1, || Node::start(name, opts(1).broadcast_address(addr(listen))));
        mc::settle();
        hellos.push(hello_of(1));
        down(1);
    }
    // What follows a hello on a real connection.
    for n in 0..3 {
        cookie(n, Some("x"));
    }
    let seen = Shared::new(vec![]);
    let s2: Shared<Vec<u8>> = seen.clone();
    on(1, || Node::start(name(1), opts(1).listen_address(addr(5))));
    up(2);
    relay(addr(1), addr(5), Rc::new(move |c, d, _, b| {
        if c == 0 && d == 0 {
            s2.with(|s| s.extend(&*b));
        }
        true
    }));
    let c = Rem::spawn(2, "c");
    mc::settle();
    connect(&c, 1);
    let hello = seen.get();
    seen.set(vec![]);
    c.call(|| Process::send(("p", node_of(1)), M::N(3)));
    mc::settle();
    let frames = seen.get();
    check!(!frames.is_empty() && frames != hello, "no-frames", "");
    down(2);
    down(1);
    let mut h = hellos.into_iter();
    let mut next = || h.next().unwrap();
    Known { good: next(), stale: next(), moved: next(), renamed: next(), frames }
}

/// Chooses what node 1 says.
fn says(k: &Known) -> Says {
    let n = k.good.len();
    let (bytes, right, what) = match mc::choose(8) {
        0 => (k.good.clone(), true, "good".into()),
        1 => (k.stale.clone(), false, "another cookie".into()),
        2 => (k.frames.clone(), false, "a message".into()),
        3 => ([k.frames.clone(), k.good.clone()].concat(), false, "a message, then hello".into()),
        4 => ([k.stale.clone(), k.good.clone()].concat(), false, "a wrong hello, then a good one".into()),
        5 => {
            let i = mc::choose(150);
            if i >= n {
                return Says { bytes: vec![], right: false, what: String::new() };
            }
            (k.good[..i].to_vec(), false, format!("{} bytes of hello", i))
        }
        _ => {
            let i = mc::choose(150);
            let mask = [1u8, 2, 0x10, 0x20, 0x80, 0xff][mc::choose(6)];
            if i >= n {
                return Says { bytes: vec![], right: false, what: String::new() };
            }
            let mut b = k.good.clone();
            b[i] ^= mask;
            (b, false, format!("hello with byte {} altered by {:x}", i, mask))
        }
    };
    Says { bytes, right, what }
}

/// A client that says anything: it becomes a connected node only with the right first frame.
fn client() -> Scenario {
    seq("client", 100).run(|| {
        mc::settle();
        let k = learn();
        for n in 0..3 {
            cookie(n, Some("x"));
        }
        on(0, || Node::start(name(0), limits(0)));
        on(2, || Node::start(name(2), limits(2)));
        let log = Shared::new(vec![]);
        let p = proc_on(0, "p", collect(log.clone()));
        on(0, || Process::register(p, "p").unwrap());
        let c = Rem::spawn(2, "c");
        mc::settle();
        mc::explore();
        let s = says(&k);
        // Afterwards: silence, a message, or the end.
        let then = mc::choose(3);
        if then == 1 && s.bytes.len() > 4 && s.bytes[..4] != k.good[..4] && s.bytes[4..] == k.good[4..] {
            // A longer frame: what follows is a part of it, the right hello is still there.
            return;
        }
        let mut raw = Raw::connect(addr(0));
        mc::settle();
        raw.send(&s.bytes);
        mc::settle();
        check!(connected(0, 1) == s.right, "connected", "{}: {:?}", s.what, state(0, 1));
        match then {
            1 => {
                raw.send(&k.frames);
            }
            2 => raw.close(),
            _ => (),
        }
        mc::settle();
        check!(log.get().len() == (s.right && then == 1) as usize, "message", "{}: {:?}", s.what, log.get());
        check!(connected(0, 1) == (s.right && then != 2), "connected", "{} ({}): {:?}", s.what, then, state(0, 1));
        mc::settle_for(5 * SEC);
        check!(!connected(0, 1), "connected", "{} ({}), and then silence", s.what, then);
        if then != 2 {
            check!(raw.read().1, "not-closed", "{} ({}): five seconds of silence later the connection is still open", s.what, then);
        }
        // Others aren't affected.
        connect(&c, 0);
        no_stray_panics(&QUIET);
        mc::outcome((s.what, then));
    })
}

/// An address where nothing listens, and what a node `n1` there says first.
fn elsewhere() -> (std::net::SocketAddr, Vec<u8>) {
    let at = addr(6);
    on(1, || Node::start("n1", opts(1).listen_address(addr(5)).broadcast_address(at)));
    cookie(1, Some("x"));
    mc::settle();
    let mut raw = Raw::connect(addr(5));
    mc::settle();
    let b = raw.read().0;
    raw.close();
    down(1);
    (at, b)
}

/// A server that says anything: the node that asked for `n1` takes it for that only if it is.
fn server() -> Scenario {
    seq("server", 100).run(|| {
        mc::settle();
        let k = learn();
        for n in 0..3 {
            cookie(n, Some("x"));
        }
        on(0, || Node::start(name(0), limits(0)));
        on(2, || Node::start(name(2), limits(2)));
        let (a, c) = (Rem::spawn(0, "a"), Rem::spawn(2, "c"));
        mc::settle();
        let (at, genuine) = elsewhere();
        let n1 = Node::from(("n1", at));
        let k = Known { good: genuine, moved: k.good, ..k };
        let l = RawListener::bind(at);
        mc::explore();
        let s = match mc::choose(3) {
            0 => says(&k),
            1 => Says { bytes: k.moved.clone(), right: false, what: "that name at another address".into() },
            _ => Says { bytes: k.renamed.clone(), right: false, what: "another name".into() },
        };
        let then = mc::choose(2);
        let n2 = n1.clone();
        let r = a.call(move || {
            let r = Node::monitor(n2.clone());
            Process::send(("p", n2), M::N(77));
            r
        });
        mc::settle();
        let mut raw = l.accept().expect("no connection");
        let (hello, _) = raw.read();
        let n2 = n1.clone();
        let conn = move || on(0, || Node::list_by_state(NodeState::Connected).contains(&n2));
        check!(!conn(), "connected", "before a word was said");
        raw.send(&s.bytes);
        mc::settle();
        check!(conn() == s.right, "connected", "{}", s.what);
        let (rest, _) = raw.read();
        check!(s.right || rest.is_empty(), "message-sent", "{}: it was sent {:?} after {:?}", s.what, rest, hello);
        check!(!s.right || !rest.is_empty(), "message-not-sent", "{}", s.what);
        if then == 1 {
            raw.close();
        }
        mc::settle_for(5 * SEC);
        check!(!conn(), "connected", "{}, and then silence", s.what);
        let down = a.events();
        check!(down == [Ev::NodeDown(format!("{:?}", n1), r.unwrap())], "node-down", "{}: {:?}", s.what, down);
        if then == 0 {
            let (rest, closed) = raw.read();
            check!(closed && (s.right || rest.is_empty()), "not-closed", "{}: {:?}", s.what, rest);
        }
        connect(&c, 0);
        no_stray_panics(&QUIET);
        mc::outcome((s.what, then));
    })
}

/// Every limit for a handshake, and the default, of who accepts and of who connects.
fn durations() -> Scenario {
    seq("durations", 50).run(|| {
        mc::settle();
        cookie(0, Some("x"));
        let (at, good) = elsewhere();
        let n1 = Node::from(("n1", at));
        mc::explore();
        let (i, late, accept) = (mc::choose(SPANS.len() + 1), mc::choose(2) == 1, mc::choose(2) == 1);
        let d = SPANS.get(i).copied().unwrap_or(5000);
        let mut o = opts(0).heartbeat_interval(ms(1000)).heartbeat_timeout(ms(3000));
        if i < SPANS.len() {
            o = o.handshake_timeout(ms(d));
        }
        on(0, || Node::start(name(0), o));
        let a = Rem::spawn(0, "a");
        mc::settle();
        let l = (!accept).then(|| RawListener::bind(at));
        let n2 = n1.clone();
        let connect = move || {
            let r = Node::monitor(n2.clone());
            Node::connect(n2);
            r
        };
        let r = (!accept).then(|| a.call(connect).unwrap());
        mc::settle();
        let mut raw = match &l {
            Some(l) => l.accept().expect("no connection"),
            None => Raw::connect(addr(0)),
        };
        mc::settle_for(if late { d + 1 } else { d - 1 } * MS);
        check!(raw.read().1 == late, "deadline", "limit {} ms, accepting {}, after the time {}: closed {}", d, accept, late, !late);
        let down = a.events();
        let want = if late && !accept { vec![Ev::NodeDown(format!("{:?}", n1), r.unwrap())] } else { vec![] };
        check!(down == want, "node-down", "limit {} ms: {:?}", d, down);
        if !late {
            raw.send(&good);
            mc::settle();
            let n1 = n1.clone();
            check!(on(0, || Node::list_by_state(NodeState::Connected).contains(&n1)), "connected", "limit {} ms, accepting {}", d, accept);
        }
        no_stray_panics(&QUIET);
        mc::outcome((i, late, accept));
    })
}

/// Two real nodes, and one byte of either hello is altered on the way.
fn spoiled() -> Scenario {
    seq("spoiled", 100).run(|| {
        mc::settle();
        mc::explore();
        let (dir, at) = (mc::choose(2), mc::choose(150) as u64);
        let mask = [1u8, 0x10, 0x20, 0x80, 0xff][mc::choose(5)];
        for n in 0..2 {
            cookie(n, Some("secret"));
        }
        on(0, || Node::start(name(0), limits(0)));
        on(1, || Node::start(name(1), limits(1).listen_address(addr(5))));
        let hello = Shared::new([0u64; 2]);
        let h2 = hello.clone();
        relay(addr(1), addr(5), Rc::new(move |conn, d, off, bytes| {
            if conn == 0 {
                if off == 0 {
                    h2.with(|h| h[d] = bytes.len() as u64);
                }
                if d == dir && off <= at && at < off + bytes.len() as u64 {
                    bytes[(at - off) as usize] ^= mask;
                }
            }
            true
        }));
        let a = Rem::spawn(0, "a");
        mc::settle();
        a.call(|| Node::connect(node_of(1)));
        mc::settle();
        if at >= hello.get()[dir] {
            mc::outcome("none");
            return;
        }
        let told = 1 - dir;
        check!(!connected(told, dir), "connected", "byte {} of the hello of {} was altered by {:x}", at, dir, mask);
        mc::settle_for(7 * SEC);
        for (x, y) in [(0, 1), (1, 0)] {
            check!(!connected(x, y), "connected", "byte {} of the hello of {} was altered by {:x}: {:?}", at, dir, mask, state(x, y));
        }
        connect(&a, 1);
        no_stray_panics(&QUIET);
        mc::outcome((dir, at, mask));
    })
}

/// Cookies change and impostors arrive while nodes connect: both nodes agree in the end.
fn race() -> Scenario {
    sc("race", (1, 2), 4).run(|| {
        mc::settle();
        mc::explore();
        let change = mc::choose(4);
        mc::setup_begin();
        for n in 0..2 {
            cookie(n, Some("x"));
        }
        let stale = {
            cookie(1, Some("y"));
            up(1);
            mc::settle();
            let h = hello_of(1);
            down(1);
            cookie(1, Some("x"));
            h
        };
        on(0, || Node::start(name(0), limits(0)));
        on(1, || Node::start(name(1), limits(1)));
        let a = Rem::spawn(0, "a");
        mc::settle();
        mc::setup_end();
        a.post(|| async { Node::connect(node_of(1)) });
        match change {
            0 => {
                proc_on(0, "change", async { cookie(0, Some("z")) });
            }
            1 => {
                proc_on(1, "change", async { cookie(1, Some("z")) });
            }
            2 => {
                // An impostor of node 1 at the same time.
                on(3, || {
                    task("impostor", async move {
                        let mut s = tokio::net::TcpStream::connect(addr(0)).await.unwrap();
                        let _ = s.write_all(&stale).await;
                        std::future::pending::<()>().await
                    })
                });
            }
            _ => {
                // Somebody who says nothing.
                on(3, || {
                    task("mute", async move {
                        let _s = tokio::net::TcpStream::connect(addr(0)).await.unwrap();
                        std::future::pending::<()>().await
                    })
                });
            }
        }
        mc::settle();
        mc::settle_for(10 * SEC);
        let (s, t) = (connected(0, 1), connected(1, 0));
        check!(s == t, "inconsistent", "{}: {:?} and {:?}", change, state(0, 1), state(1, 0));
        check!(s || change < 2, "not-connected", "{}: {:?} and {:?}", change, state(0, 1), state(1, 0));
        no_stray_panics(&QUIET);
        mc::outcome((change, s));
    })
}

/// A greeting whose name takes in the first digits of its address, or the other way around, is not
/// the one that was signed.
fn boundary() -> Scenario {
    seq("boundary", 2).run(|| {
        mc::settle();
        for n in 0..2 {
            cookie(n, Some("x"));
        }
        on(0, || Node::start(name(0), limits(0)));
        mc::explore();
        // The real name and first byte of the address, and the altered ones.
        let (n, ip, m, other) = [("n1", 127, "n11", 27), ("n1", 127, "n112", 7), ("n1", 10, "n11", 0), ("n1", 27, "n", 127), ("n12", 7, "n1", 27), ("n1", 127, "n1", 27)][mc::choose(6)];
        let at = std::net::SocketAddr::from(([ip, 0, 0, 1], 1001));
        mc::setup_begin();
        on(1, move || Node::start(n, limits(1).listen_address(addr(1)).broadcast_address(at)));
        mc::settle();
        mc::setup_end();
        let hello = hello_of(1);
        down(1);
        // The length of the name, the name, the kind of address and the address.
        let part = |n: &str, ip: u8| [&(n.len() as u64).to_le_bytes()[..], n.as_bytes(), &[0; 4], &[ip, 0, 0, 1]].concat();
        let (real, altered) = (part(n, ip), part(m, other));
        let i = hello.windows(real.len()).position(|w| w == real).expect("the name in the greeting");
        let mut b = [&hello[..i], &altered[..], &hello[i + real.len()..]].concat();
        let len = b.len() as u32 - 4;
        b[..4].copy_from_slice(&len.to_le_bytes());
        let mut raw = Raw::connect(addr(0));
        mc::settle();
        raw.send(&b);
        mc::settle();
        let list = on(0, || Node::list_by_state(NodeState::Connected));
        let moved = format!("{}{}", n, ip) == format!("{}{}", m, other);
        let key = if moved { "boundary" } else { "connected" };
        check!(list.is_empty(), key, "the greeting of {} at {} was altered to that of {} at {}.0.0.1: {:?} connected", n, at, m, other, list);
        mc::settle_for(5 * SEC);
        check!(raw.read().1, "not-closed", "altered to {} at {}.0.0.1: still open", m, other);
        no_stray_panics(&QUIET);
        mc::outcome((n, ip, m));
    })
}
