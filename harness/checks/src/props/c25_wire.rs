//! C25: what is sent arrives whole, whatever the pieces in which the network carries it, and bytes
//! that make no sense end their own connection only.

use crate::dist::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![pieces(), sizes(), cut(), garbage(), truncated()]
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum T {
    S(String),
    N(u32),
}

fn text(n: usize) -> String {
    (0..n).map(|i| (b'a' + (i * 7 + i / 26) as u8 % 26) as char).collect()
}

/// Collects `T`s: short ones as they are, long ones by length if they are right.
async fn gather(log: Shared<Vec<String>>) {
    loop {
        let s = match Process::receive::<T>().await {
            Message::User(T::S(s)) if s == text(s.len()) => format!("S{}", s.len()),
            Message::User(t) => format!("{:?}", t),
            Message::System(s) => match s {
                SystemMessage::Exit(_, r) => format!("exit {:?}", r),
                s => format!("{:?}", s),
            },
        };
        log.push(s);
    }
}

fn gatherer(n: usize) -> (Pid, Shared<Vec<String>>) {
    let log = Shared::new(vec![]);
    let l2 = log.clone();
    let pid = proc_on(n, "gather", async move {
        Process::set_flags(ProcessFlags::TRAP_EXIT);
        gather(l2).await
    });
    (pid, log)
}

/// The network hands over the bytes in other pieces than they were written in.
fn pieces() -> Scenario {
    sc("pieces", (1, 2), 3).chunks().run(|| {
        mc::settle();
        mc::explore();
        let cap = [usize::MAX, 1, 5, 64][mc::choose(4)];
        mc::setup_begin();
        let (a, _b) = pair();
        mcnet::set_capacity(cap);
        let (p, lp) = gatherer(1);
        let (q, lq) = gatherer(0);
        mc::settle();
        mc::setup_end();
        let (rp, rq) = (move_to(1, 0, &p), move_to(0, 1, &q));
        a.call(move || {
            Process::send(rp, T::N(1));
            Process::send(rp, T::S(text(40)));
            Process::exit(rp, ExitReason::from("because"));
            Process::send(rp, T::S(text(0)));
        });
        proc_on(1, "back", async move {
            Process::send(rq, T::S(text(3)));
            Process::send(rq, T::N(2));
        });
        mc::settle();
        let (gp, gq) = (lp.get(), lq.get());
        check!(gp == ["N(1)", "S40", "exit because", "S0"] || gp == ["N(1)", "S40", "exit Custom(\"because\")", "S0"], "altered", "{:?}", gp);
        check!(gq == ["S3", "N(2)"], "altered", "{:?}", gq);
        mc::outcome((cap, gp, gq));
        no_stray_panics(&[]);
    })
}

/// Messages of every interesting size, in every order, through buffers of every kind.
fn sizes() -> Scenario {
    seq("sizes", 100).steps(5_000_000).run(|| {
        mc::settle();
        mc::explore();
        let cap = [usize::MAX, 1, 100, 5000][mc::choose(4)];
        let big: Vec<usize> = if thorough() { (0..70).chain(8000..8400).chain([65535, 65536, 70000, 1 << 20]).collect() } else { vec![0, 1, 31, 32, 255, 256, 4095, 8100, 8110, 8120, 8130, 8140, 8150, 8160, 8191, 8192, 8193, 65535, 65536, 300_000] };
        let x = big[mc::choose(big.len())];
        // More than three bytes of the length.
        let x = if x == 300_000 && cap == usize::MAX { (1 << 24) + 3 } else { x };
        let y = [0, 33, 9000][mc::choose(3)];
        if cap == 1 && x > 10_000 {
            return;
        }
        let (a, _b) = pair();
        mcnet::set_capacity(cap);
        let (p, lp) = gatherer(1);
        mc::settle();
        let rp = move_to(1, 0, &p);
        let at_once = mc::choose(2) == 1;
        for (i, n) in [x, y, x].into_iter().enumerate() {
            a.call(move || {
                Process::send(rp, T::S(text(n)));
                Process::send(rp, T::N(i as u32));
            });
            if !at_once {
                mc::settle();
            }
        }
        mc::settle();
        let got = lp.get();
        let want: Vec<String> = [x, y, x].iter().enumerate().flat_map(|(i, n)| [format!("S{}", n), format!("N({})", i)]).collect();
        check!(got == want, "altered", "sizes {} {}, capacity {}: {:?}", x, y, cap, got);
        no_stray_panics(&[]);
        mc::outcome((cap, x, y, at_once));
    })
}

/// Node 1 behind a relay, node 2 next to both.
fn scene(f: Tamper) -> [Rem; 3] {
    up(0);
    on(1, || Node::start(name(1), NodeOptions::new().listen_address(addr(5)).broadcast_address(addr(1))));
    up(2);
    relay(addr(1), addr(5), f);
    let r = [Rem::spawn(0, "a"), Rem::spawn(1, "b"), Rem::spawn(2, "c")];
    mc::settle();
    connect(&r[2], 0);
    r
}

/// The connection ends after every number of bytes in either direction.
fn cut() -> Scenario {
    seq("cut", 100).run(|| {
        mc::settle();
        mc::explore();
        let (dir, at) = (mc::choose(2), (mc::choose(if thorough() { 15 } else { 7 }) * 100 + mc::choose(100)) as u64);
        let hard = mc::choose(2) == 1;
        let done = Shared::new(false);
        let d2 = done.clone();
        let [a, b, c] = scene(Rc::new(move |conn, d, off, bytes| {
            if conn == 0 && d == dir && !d2.get() && at <= off + bytes.len() as u64 {
                bytes.truncate((at - off) as usize);
                d2.set(true);
                if hard {
                    for i in 0..mcnet::connections() {
                        if mcnet::endpoints(i).1 == addr(1) || mcnet::endpoints(i).1 == addr(5) {
                            mcnet::reset(i);
                        }
                    }
                }
                return false;
            }
            true
        }));
        let (p, lp) = gatherer(1);
        let (q, lq) = gatherer(0);
        let other = Rem::spawn(0, "other");
        mc::settle();
        let (rp, rq) = (move_to(1, 0, &p), move_to(0, 1, &q));
        let ro = other.pid_on(2);
        let watch = c.call(move || Process::monitor(ro)).unwrap();
        let mon = a.call(move || Process::monitor(rp)).unwrap();
        mc::settle();
        a.call(move || {
            for i in 0..4 {
                Process::send(rp, T::N(i));
            }
            Process::send(rp, T::S(text(30)));
        });
        // Node 1 only answers over a connection that exists.
        b.call(move || {
            for i in 0..4 {
                Process::send(rq, T::N(i));
            }
            Process::send(rq, T::S(text(30)));
        });
        mc::settle();
        if !done.get() {
            // Nothing left to cut.
            mc::outcome("all");
            return;
        }
        let want = ["N(0)", "N(1)", "N(2)", "N(3)", "S30"];
        for l in [&lp, &lq] {
            let l = l.get();
            check!(l.len() <= 5 && l == want[..l.len()], "not-a-prefix", "cut {} {}: {:?}", dir, at, l);
        }
        check!(!connected(0, 1) && !connected(1, 0), "state", "cut {} {}: {:?} {:?}", dir, at, state(0, 1), state(1, 0));
        let down = a.events();
        check!(down == [Ev::Down(DestR::Pid(rp), mon, "noconnection".into())], "monitor", "cut {} {}: {:?}", dir, at, down);
        // Others aren't affected, and a new connection is as good as any.
        check!(connected(0, 2) && connected(2, 0), "other-connection", "cut {} {}", dir, at);
        connect(&a, 1);
        lp.set(vec![]);
        a.call(move || Process::send(rp, T::S(text(9))));
        mc::settle();
        check!(lp.get() == ["S9"], "new-connection", "cut {} {}: {:?}", dir, at, lp.get());
        let e = c.events();
        check!(e.is_empty(), "other-monitor", "{:?} {:?}", e, watch);
        no_stray_panics(&QUIET);
        mc::outcome((dir, at, hard));
    })
}

const QUIET: [&str; 9] = [
    "Remote node timed out",
    "Remote node went down",
    "Failed to receive a message from the remote node",
    "Failed to send a message to the remote node",
    "Failed to send multiple messages to the remote node",
    "hello handshake packet",
    "Option::unwrap",
    "Should never receive hello frame",
    "incorrect frame for node handshake",
];

/// A peer that is a node by its first frame, but not by what follows.
fn strange(n: usize, hello: &[u8]) -> Raw {
    let mut raw = Raw::connect(addr(n));
    mc::settle();
    raw.send(hello);
    mc::settle();
    raw
}

/// Frames of every small length filled with one byte.
fn garbage() -> Scenario {
    seq("garbage", 100).run(|| {
        mc::settle();
        let [_a, b, c] = scene(Rc::new(|_, _, _, _| true));
        let h = hello_of(1);
        mc::explore();
        let claim = mc::choose(if thorough() { 80 } else { 40 });
        let n = match mc::choose(3) {
            0 => claim,
            1 => claim / 2,
            _ => claim + 3,
        };
        let fill = [0u8, 1, 2, 4, 5, 0x7f, 0x80, 0xff][mc::choose(8)];
        let tag = mc::choose(13) as u32;
        let second = mc::choose(2) == 1;
        let mut raw = strange(0, &h);
        check!(connected(0, 1), "not-connected", "{:?}", state(0, 1));
        let mut bytes = (claim as u32).to_le_bytes().to_vec();
        let mut junk = vec![fill; n];
        for (i, b) in tag.to_le_bytes().into_iter().enumerate() {
            if i < n && tag < 12 {
                junk[i] = b;
            }
        }
        bytes.extend(junk);
        raw.send(&bytes);
        mc::settle();
        if second {
            raw.send(&bytes);
            mc::settle();
        }
        // The silence that follows is the end at the latest.
        mc::settle_for(61 * SEC);
        let (_, closed) = raw.read();
        check!(closed && !connected(0, 1), "not-ended", "{:?}: {} {:?}", bytes, closed, state(0, 1));
        check!(connected(0, 2) && connected(2, 0), "other-connection", "{:?}", bytes);
        check!(on(0, || Node::alive()), "node-ended", "{:?}", bytes);
        check!(c.events().is_empty() && b.alive(), "others", "{:?}", bytes);
        raw.close();
        connect(&b, 0);
        mc::outcome((claim, n, fill, tag, second));
    })
}

/// A genuine message frame that was shortened, followed by a genuine one.
fn truncated() -> Scenario {
    seq("truncated", 30).run(|| {
        mc::settle();
        // Learn the frames of two messages.
        let seen: Shared<Vec<u8>> = Shared::new(vec![]);
        let s2 = seen.clone();
        let [_a, b, c] = scene(Rc::new(move |conn, d, _, bytes| {
            if conn == 0 && d == 0 {
                s2.with(|s| s.extend(&*bytes));
            }
            true
        }));
        let (p, lp) = gatherer(1);
        mc::settle();
        connect(&Rem::spawn(0, "x"), 1);
        let rp = move_to(1, 0, &p);
        let h = hello_of(0);
        let mut frames = vec![];
        for t in [T::S(text(20)), T::N(7)] {
            mc::settle();
            seen.set(vec![]);
            proc_on(0, "s", async move { Process::send(rp, t) });
            mc::settle();
            frames.push(seen.get());
        }
        check!(lp.get() == ["S20", "N(7)"], "altered", "{:?}", lp.get());
        lp.set(vec![]);
        b.call(|| Node::forget(node_of(0)));
        mc::settle();
        check!(!connected(1, 0), "state", "");
        mc::explore();
        let k = mc::choose(80);
        let gap = mc::choose(2) == 1;
        let first = &frames[0];
        if k + 4 >= first.len() {
            return;
        }
        let mut bytes = (k as u32).to_le_bytes().to_vec();
        bytes.extend(&first[4..4 + k]);
        let mut raw = Raw::connect(addr(5));
        mc::settle();
        raw.send(&h);
        mc::settle();
        check!(connected(1, 0), "not-connected", "{:?}", state(1, 0));
        if gap {
            raw.send(&bytes);
            mc::settle();
            raw.send(&frames[1]);
        } else {
            bytes.extend(&frames[1]);
            raw.send(&bytes);
        }
        mc::settle();
        let got = lp.get();
        // The malformed frame is not completed from the next one.
        check!(got.is_empty() || got == ["N(7)"], "altered", "shortened to {}: {:?}", k, got);
        check!(got.len() == 1 || !connected(1, 0), "stalled", "shortened to {}: the following frame was not received, the connection lasts", k);
        check!(connected(0, 2) && c.events().is_empty(), "others", "");
        mc::outcome((k, got));
    })
}
