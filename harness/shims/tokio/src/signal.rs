//! Process signals, raised by the harness.

use std::cell::UnsafeCell;
use std::future::poll_fn;
use std::io;
use std::task::{Context, Poll, Waker};

struct State {
    /// (signal number, how often raised)
    count: Vec<(i32, u64)>,
    wakers: Vec<Waker>,
}
struct Global(UnsafeCell<Option<State>>);
unsafe impl Sync for Global {}
static STATE: Global = Global(UnsafeCell::new(None));
const RES: mc::Res = mc::Res(0x51_6e_a1);

fn st() -> &'static mut State {
    unsafe { (*STATE.0.get()).get_or_insert_with(|| State { count: Vec::new(), wakers: Vec::new() }) }
}

fn count(sig: i32) -> u64 {
    st().count.iter().find(|c| c.0 == sig).map(|c| c.1).unwrap_or(0)
}

/// Harness: deliver `sig` to the process.
pub fn mc_raise(sig: i32) {
    mc::point_named(RES, mc::Acc::Write, "raise");
    match st().count.iter_mut().find(|c| c.0 == sig) {
        Some(c) => c.1 += 1,
        None => st().count.push((sig, 1)),
    }
    for w in st().wakers.drain(..) {
        w.wake();
    }
}

fn poll_sig(sig: i32, seen: &mut u64, cx: &mut Context<'_>) -> Poll<()> {
    mc::point_named(RES, mc::Acc::Write, "signal recv");
    let c = count(sig);
    if c > *seen {
        *seen = c;
        return Poll::Ready(());
    }
    st().wakers.push(cx.waker().clone());
    Poll::Pending
}

/// SIGINT.
pub async fn ctrl_c() -> io::Result<()> {
    let mut seen = count(2);
    poll_fn(|cx| poll_sig(2, &mut seen, cx)).await;
    Ok(())
}

pub mod unix {
    use super::*;

    #[derive(Debug, Clone, Copy, Hash, PartialEq, Eq)]
    pub struct SignalKind(i32);

    impl SignalKind {
        pub const fn from_raw(n: i32) -> Self {
            SignalKind(n)
        }
        pub const fn as_raw_value(&self) -> i32 {
            self.0
        }
        pub const fn hangup() -> Self {
            SignalKind(1)
        }
        pub const fn interrupt() -> Self {
            SignalKind(2)
        }
        pub const fn quit() -> Self {
            SignalKind(3)
        }
        pub const fn terminate() -> Self {
            SignalKind(15)
        }
        pub const fn user_defined1() -> Self {
            SignalKind(10)
        }
        pub const fn user_defined2() -> Self {
            SignalKind(12)
        }
    }

    #[derive(Debug)]
    pub struct Signal {
        kind: i32,
        seen: u64,
    }

    pub fn signal(kind: SignalKind) -> io::Result<Signal> {
        Ok(Signal { kind: kind.0, seen: count(kind.0) })
    }

    impl Signal {
        pub async fn recv(&mut self) -> Option<()> {
            poll_fn(|cx| self.poll_recv(cx)).await
        }
        pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<()>> {
            poll_sig(self.kind, &mut self.seen, cx).map(Some)
        }
    }
}
