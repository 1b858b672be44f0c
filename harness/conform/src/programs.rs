//! Small programs whose possible outcomes are explored with the replacements and observed with the real libraries.
//! `exact`: there is one outcome, and both sides have to have exactly that one.

use hydra::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

pub type Fut = Pin<Box<dyn Future<Output = String> + Send>>;
pub type Program = (&'static str, bool, fn() -> Fut);

#[derive(Debug, Clone, Serialize, Deserialize)]
enum M {
    N(u32),
}

fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}

type Log = Arc<Mutex<Vec<String>>>;

fn log() -> Log {
    Arc::new(Mutex::new(vec![]))
}

fn put(l: &Log, s: impl Into<String>) {
    l.lock().unwrap().push(s.into())
}

fn show(l: &Log) -> String {
    l.lock().unwrap().join(" ")
}

struct OnDrop(Log, &'static str);
impl Drop for OnDrop {
    fn drop(&mut self) {
        put(&self.0, self.1)
    }
}

tokio::task_local! { static LOCAL: OnDropLocal; }

struct OnDropLocal(Log);
impl Drop for OnDropLocal {
    fn drop(&mut self) {
        put(&self.0, format!("local dropped, set: {}", LOCAL.try_with(|_| ()).is_ok()))
    }
}

/// A listener at a free port, and its address.
async fn listen() -> (TcpListener, std::net::SocketAddr) {
    for port in 20000.. {
        let a = std::net::SocketAddr::from(([127, 0, 0, 1], port));
        if let Ok(l) = TcpListener::bind(a).await {
            return (l, a);
        }
    }
    unreachable!()
}

async fn pair() -> (TcpStream, TcpStream) {
    let (l, a) = listen().await;
    let c = TcpStream::connect(a).await.unwrap();
    (c, l.accept().await.unwrap().0)
}

/// Runs a process and waits for it.
async fn process<F: Future<Output = String> + Send + 'static>(f: F) -> String {
    let (tx, rx) = tokio::sync::oneshot::channel();
    Process::spawn(async move {
        let r = f.await;
        let _ = tx.send(r);
    });
    rx.await.unwrap_or("ended".into())
}

fn text(m: Message<M>) -> String {
    match m {
        Message::User(M::N(n)) => format!("{}", n),
        Message::System(SystemMessage::ProcessDown(_, _, r)) => format!("down:{:?}", r),
        Message::System(SystemMessage::Exit(_, r)) => format!("exit:{:?}", r),
        _ => "other".into(),
    }
}

macro_rules! programs {
    ($($name:ident $exact:ident $body:block)*) => {
        pub fn programs() -> Vec<Program> {
            vec![$((stringify!($name), stringify!($exact) == "exact", (|| -> Fut { Box::pin(async move { $body }) }) as fn() -> Fut)),*]
        }
    };
}

programs! {
    // -- tasks
    join_value exact { format!("{:?}", tokio::spawn(async { 7 }).await.unwrap()) }
    join_panic exact {
        let e = tokio::spawn(async { panic!("boom") }).await.unwrap_err();
        let p = e.is_panic();
        let b = e.into_panic();
        format!("{} {:?}", p, b.downcast_ref::<&str>())
    }
    abort_suspended exact {
        let l = log();
        let l2 = l.clone();
        let (tx, rx) = tokio::sync::oneshot::channel();
        let t = tokio::spawn(async move {
            let _d = OnDrop(l2, "dropped");
            let _ = tx.send(());
            std::future::pending::<()>().await
        });
        let _ = rx.await;
        t.abort();
        let r = t.await;
        put(&l, format!("cancelled {}", r.unwrap_err().is_cancelled()));
        show(&l)
    }
    abort_at_once race {
        let l = log();
        let l2 = l.clone();
        let t = tokio::spawn(async move {
            put(&l2, "ran");
            let _d = OnDrop(l2.clone(), "dropped");
            tokio::task::yield_now().await;
            put(&l2, "on");
        });
        t.abort();
        match t.await {
            Ok(()) => put(&l, "ok"),
            Err(e) => put(&l, format!("cancelled {}", e.is_cancelled())),
        }
        show(&l)
    }
    abort_finished exact {
        let t = tokio::spawn(async { 1 });
        while !t.is_finished() {
            tokio::time::sleep(ms(1)).await;
        }
        t.abort();
        format!("{:?}", t.await.map_err(|e| e.is_cancelled()))
    }
    abort_self exact {
        let h: Arc<Mutex<Option<tokio::task::AbortHandle>>> = Arc::new(Mutex::new(None));
        let l = log();
        let (h2, l2) = (h.clone(), l.clone());
        let (tx, rx) = tokio::sync::oneshot::channel::<()>();
        let t = tokio::spawn(async move {
            let _ = rx.await;
            h2.lock().unwrap().as_ref().unwrap().abort();
            put(&l2, "runs on");
            tokio::task::yield_now().await;
            put(&l2, "too far");
        });
        *h.lock().unwrap() = Some(t.abort_handle());
        let _ = tx.send(());
        let r = t.await;
        put(&l, format!("{}", r.is_err()));
        show(&l)
    }
    detached exact {
        let (tx, rx) = tokio::sync::oneshot::channel();
        drop(tokio::spawn(async move {
            tokio::task::yield_now().await;
            let _ = tx.send(3);
        }));
        format!("{:?}", rx.await)
    }
    drop_before_join exact {
        // What a task owns is gone once its end is seen.
        let l = log();
        let l2 = l.clone();
        let t = tokio::spawn(async move {
            let _d = OnDrop(l2, "dropped");
        });
        let _ = t.await;
        put(&l, "joined");
        show(&l)
    }
    panic_drops exact {
        let l = log();
        let l2 = l.clone();
        let t = tokio::spawn(async move {
            let _d = OnDrop(l2, "dropped");
            if true {
                panic!("boom");
            }
        });
        let r = t.await;
        put(&l, format!("{}", r.is_err()));
        show(&l)
    }
    task_local_drop exact {
        let l = log();
        let l2 = l.clone();
        let (tx, rx) = tokio::sync::oneshot::channel::<()>();
        let t = tokio::spawn(LOCAL.scope(OnDropLocal(l.clone()), async move {
            put(&l2, format!("inside {}", LOCAL.try_with(|_| ()).is_ok()));
            let _ = tx.send(());
            std::future::pending::<()>().await
        }));
        let _ = rx.await;
        t.abort();
        let _ = t.await;
        put(&l, format!("outside {}", LOCAL.try_with(|_| ()).is_ok()));
        show(&l)
    }
    two_tasks race {
        let l = log();
        let ts: Vec<_> = (0..2).map(|i| {
            let l = l.clone();
            tokio::spawn(async move {
                put(&l, format!("a{}", i));
                tokio::task::yield_now().await;
                put(&l, format!("b{}", i));
            })
        }).collect();
        for t in ts {
            t.await.unwrap();
        }
        show(&l)
    }
    select_both race {
        let r = tokio::select! { _ = async {} => 1, _ = async {} => 2 };
        format!("{}", r)
    }
    select_biased exact {
        let r = tokio::select! { biased; _ = std::future::pending::<()>() => 0, _ = async {} => 1, _ = async {} => 2 };
        format!("{}", r)
    }
    join_set exact {
        let mut s = tokio::task::JoinSet::new();
        for i in 0..3 {
            s.spawn(async move { i });
        }
        let mut v = vec![];
        while let Some(r) = s.join_next().await {
            v.push(r.unwrap());
        }
        v.sort();
        format!("{:?}", v)
    }
    join_set_drop exact {
        let l = log();
        let (l2, (tx, rx)) = (l.clone(), tokio::sync::oneshot::channel::<()>());
        let (tx2, rx2) = tokio::sync::oneshot::channel::<()>();
        let mut s = tokio::task::JoinSet::new();
        s.spawn(async move {
            let _d = (tx2, OnDrop(l2, "dropped"));
            let _ = tx.send(());
            std::future::pending::<()>().await
        });
        let _ = rx.await;
        drop(s);
        let _ = rx2.await;
        tokio::time::sleep(ms(5)).await;
        show(&l)
    }
    // -- time
    sleep_order exact {
        let l = log();
        let ts: Vec<_> = [30, 10, 20].into_iter().map(|n| {
            let l = l.clone();
            tokio::spawn(async move {
                tokio::time::sleep(ms(n * 10)).await;
                put(&l, format!("{}", n));
            })
        }).collect();
        for t in ts {
            t.await.unwrap();
        }
        show(&l)
    }
    timeout_ready exact { format!("{:?} {:?}", tokio::time::timeout(ms(0), async { 1 }).await.is_ok(), tokio::time::timeout(ms(5), std::future::pending::<()>()).await.is_ok()) }
    pingora_ready exact {
        format!("{:?} {:?}", pingora_timeout::timeout(ms(0), async { 1 }).await.is_ok(), pingora_timeout::timeout(ms(5), std::future::pending::<()>()).await.is_ok())
    }
    pingora_inner_first exact {
        // A future that becomes ready well before the limit.
        format!("{:?}", pingora_timeout::timeout(ms(1000), async { tokio::time::sleep(ms(20)).await; 5 }).await.ok())
    }
    interval exact {
        let t0 = tokio::time::Instant::now();
        let mut i = tokio::time::interval(ms(50));
        i.tick().await;
        let a = t0.elapsed() < ms(40);
        i.tick().await;
        i.tick().await;
        let b = t0.elapsed() >= ms(99) && t0.elapsed() < ms(149);
        format!("{} {}", a, b)
    }
    // -- channels, locks, cells
    flume_order race {
        let (tx, rx) = flume::unbounded();
        for i in 0..2 {
            let tx = tx.clone();
            tokio::spawn(async move {
                tx.send(i * 10).unwrap();
                tx.send(i * 10 + 1).unwrap();
            });
        }
        drop(tx);
        let mut v = vec![];
        while let Ok(x) = rx.recv_async().await {
            v.push(x);
        }
        format!("{:?}", v)
    }
    flume_closed exact {
        let (tx, rx) = flume::unbounded::<i32>();
        tx.send(1).unwrap();
        drop(tx);
        let a = rx.recv_async().await;
        let b = rx.recv_async().await;
        let (tx, rx) = flume::unbounded::<i32>();
        drop(rx);
        format!("{:?} {:?} {:?}", a, b, tx.send(1).is_err())
    }
    flume_cancelled_receive exact {
        let (tx, rx) = flume::unbounded::<i32>();
        let rx2 = rx.clone();
        let (a, b) = tokio::sync::oneshot::channel::<()>();
        let t = tokio::spawn(async move {
            let mut r = Box::pin(rx2.recv_async());
            let once = std::future::poll_fn(|cx| std::task::Poll::Ready(r.as_mut().poll(cx).is_pending())).await;
            let _ = a.send(());
            std::future::pending::<()>().await;
            drop(r);
            once
        });
        let _ = b.await;
        t.abort();
        let _ = t.await;
        tx.send(5).unwrap();
        format!("{:?} {:?}", rx.recv_async().await, rx.try_recv().is_err())
    }
    flume_abandoned_after_wake exact {
        // The receiver was chosen for a message but gives up: the other one gets it.
        let (tx, rx) = flume::unbounded::<i32>();
        let mut first = Box::pin(rx.recv_async());
        let _ = std::future::poll_fn(|cx| std::task::Poll::Ready(first.as_mut().poll(cx).is_pending())).await;
        let rx2 = rx.clone();
        let t = tokio::spawn(async move { rx2.recv_async().await });
        tokio::time::sleep(ms(50)).await;
        tx.send(9).unwrap();
        drop(first);
        format!("{:?}", t.await.unwrap())
    }
    semaphore_fair exact {
        let s = Arc::new(tokio::sync::Semaphore::new(1));
        let p = s.acquire().await.unwrap();
        let l = log();
        let mut ts = vec![];
        for i in 0..3 {
            let (s, l) = (s.clone(), l.clone());
            ts.push(tokio::spawn(async move {
                let _p = s.acquire().await.unwrap();
                put(&l, format!("{}", i));
            }));
            tokio::time::sleep(ms(20)).await;
        }
        drop(p);
        for t in ts {
            t.await.unwrap();
        }
        show(&l)
    }
    lost_update race {
        let c = Arc::new(AtomicUsize::new(0));
        let ts: Vec<_> = (0..2).map(|_| {
            let c = c.clone();
            tokio::spawn(async move {
                let v = c.load(SeqCst);
                if v == 0 {
                    c.fetch_add(1, SeqCst);
                } else {
                    c.store(v + 10, SeqCst);
                }
            })
        }).collect();
        for t in ts {
            t.await.unwrap();
        }
        format!("{}", c.load(SeqCst))
    }
    map_entry_race race {
        let m = Arc::new(dashmap::DashMap::new());
        let ts: Vec<_> = (0..2).map(|i| {
            let m = m.clone();
            tokio::spawn(async move { *m.entry(1).or_insert(i) == i })
        }).collect();
        let mut won = vec![];
        for t in ts {
            won.push(t.await.unwrap());
        }
        format!("{:?}", won)
    }
    once_race race {
        let c = Arc::new(once_cell::sync::OnceCell::new());
        let n = Arc::new(AtomicUsize::new(0));
        let ts: Vec<_> = (0..2).map(|i| {
            let (c, n) = (c.clone(), n.clone());
            tokio::spawn(async move {
                *c.get_or_init(|| {
                    n.fetch_add(1, SeqCst);
                    i
                })
            })
        }).collect();
        let mut v = vec![];
        for t in ts {
            v.push(t.await.unwrap());
        }
        format!("{:?} {}", v, n.load(SeqCst))
    }
    notify_oneshot exact {
        let (tx, rx) = tokio::sync::oneshot::channel::<()>();
        drop(tx);
        let (tx, rx2) = tokio::sync::oneshot::channel::<()>();
        drop(rx2);
        format!("{} {}", rx.await.is_err(), tx.send(()).is_err())
    }
    // -- network
    net_refused exact {
        let (l, a) = listen().await;
        drop(l);
        format!("{:?}", TcpStream::connect(a).await.map_err(|e| e.kind()).map(|_| ()))
    }
    net_in_use exact {
        let (_l, a) = listen().await;
        format!("{:?}", TcpListener::bind(a).await.map_err(|e| e.kind()).map(|_| ()))
    }
    net_backlog exact {
        // A connection succeeds, and takes data, before it is accepted.
        let (l, a) = listen().await;
        let mut c = TcpStream::connect(a).await.unwrap();
        c.write_all(b"hi").await.unwrap();
        let (mut s, from) = l.accept().await.unwrap();
        let mut b = [0; 2];
        s.read_exact(&mut b).await.unwrap();
        format!("{:?} {} {}", b, from == c.local_addr().unwrap(), c.peer_addr().unwrap() == a)
    }
    net_eof exact {
        let (mut c, mut s) = pair().await;
        c.write_all(b"abc").await.unwrap();
        drop(c);
        let mut v = vec![];
        let r = s.read_to_end(&mut v).await;
        format!("{:?} {:?}", v, r.ok())
    }
    net_half_close exact {
        let (mut c, mut s) = pair().await;
        c.shutdown().await.unwrap();
        let mut b = [0; 4];
        let n = s.read(&mut b).await.unwrap();
        s.write_all(b"xy").await.unwrap();
        let m = c.read(&mut b).await.unwrap();
        format!("{} {}", n, m)
    }
    net_split_drop exact {
        // Dropping the owned write half ends the stream for the other side, the read half goes on.
        let (c, mut s) = pair().await;
        let (mut r, w) = c.into_split();
        drop(w);
        let mut b = [0; 4];
        let n = s.read(&mut b).await.unwrap();
        s.write_all(b"xy").await.unwrap();
        let m = r.read(&mut b).await.unwrap();
        format!("{} {}", n, m)
    }
    net_write_closed exact {
        // Writing to a closed connection fails in the end.
        let (mut c, s) = pair().await;
        drop(s);
        let mut failed = false;
        for _ in 0..20 {
            if c.write_all(b"abc").await.is_err() {
                failed = true;
                break;
            }
            tokio::time::sleep(ms(5)).await;
        }
        format!("{}", failed)
    }
    net_listener_gone exact {
        // The end of the listener leaves accepted connections alone.
        let (l, a) = listen().await;
        let mut c = TcpStream::connect(a).await.unwrap();
        let (mut s, _) = l.accept().await.unwrap();
        drop(l);
        c.write_all(b"q").await.unwrap();
        let mut b = [0; 1];
        s.read_exact(&mut b).await.unwrap();
        format!("{:?} {:?}", b, TcpStream::connect(a).await.is_err())
    }
    net_pressure exact {
        // A writer waits for its reader.
        let (mut c, mut s) = pair().await;
        let t = tokio::spawn(async move {
            let big = vec![7u8; 16 << 20];
            c.write_all(&big).await.is_ok()
        });
        tokio::time::sleep(ms(50)).await;
        let early = t.is_finished();
        let mut v = vec![];
        let n = s.read_to_end(&mut v).await.unwrap();
        format!("{} {} {}", early, n, t.await.unwrap())
    }
    // -- hydra
    h_messages exact {
        process(async {
            let me = Process::current();
            Process::spawn(async move {
                Process::send(me, M::N(1));
                Process::send(me, M::N(2));
            });
            let a = text(Process::receive().await);
            let b = text(Process::receive().await);
            format!("{} {}", a, b)
        }).await
    }
    h_two_senders race {
        process(async {
            let me = Process::current();
            for i in 0..2 {
                Process::spawn(async move {
                    Process::send(me, M::N(i * 10));
                    Process::send(me, M::N(i * 10 + 1));
                });
            }
            let mut v = vec![];
            for _ in 0..4 {
                v.push(text(Process::receive().await));
            }
            v.join(" ")
        }).await
    }
    h_monitor race {
        process(async {
            let p = Process::spawn(async {});
            Process::monitor(p);
            text(Process::receive().await)
        }).await
    }
    h_spawn_monitor_panic exact {
        process(async {
            let _ = Process::spawn_monitor(async { panic!("boom") });
            match text(Process::receive().await).as_str() {
                "down:Normal" => "normal".into(),
                s => s.contains("boom").to_string(),
            }
        }).await
    }
    h_link_trap race {
        process(async {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
            let p = Process::spawn(async { Process::exit(Process::current(), "why"); tokio::task::yield_now().await });
            Process::link(p);
            text(Process::receive().await)
        }).await
    }
    h_exit_race race {
        process(async {
            let (p, _) = Process::spawn_monitor(async { Process::receive::<M>().await; });
            Process::send(p, M::N(1));
            Process::exit(p, "killed");
            text(Process::receive().await)
        }).await
    }
    h_register_race race {
        process(async {
            let me = Process::current();
            for i in 0..2 {
                Process::spawn(async move {
                    let ok = Process::register(Process::current(), "conform-name").is_ok();
                    Process::send(me, M::N(i * 10 + ok as u32));
                    // Keeps the name, if it has it, until both have tried.
                    Process::sleep(ms(100)).await;
                });
            }
            let mut v = vec![text(Process::receive().await), text(Process::receive().await)];
            v.sort();
            Process::sleep(ms(150)).await;
            v.join(" ")
        }).await
    }
    h_timer exact {
        process(async {
            let me = Process::current();
            let t = Process::send_after(me, M::N(9), ms(40));
            Process::send_after(me, M::N(1), ms(10));
            let a = text(Process::receive().await);
            Process::cancel_timer(t);
            let none = Process::timeout(ms(100), Process::receive::<M>()).await.is_err();
            format!("{} {}", a, none)
        }).await
    }
    h_alias_once exact {
        process(async {
            let a = Process::alias(true);
            Process::send(a, M::N(1));
            Process::send(a, M::N(2));
            let x = text(Process::receive().await);
            format!("{} {}", x, Process::timeout(ms(50), Process::receive::<M>()).await.is_err())
        }).await
    }
    h_kill_race race {
        let l = log();
        let l2 = l.clone();
        let r = process(async move {
            let (p, _) = Process::spawn_monitor(async move {
                put(&l2, "a");
                tokio::task::yield_now().await;
                put(&l2, "b");
            });
            Process::exit(p, ExitReason::Kill);
            text(Process::receive().await)
        }).await;
        put(&l, r);
        show(&l)
    }
    h_task exact {
        process(async {
            let t = Task::spawn(async { 5 });
            format!("{:?}", t.await.ok())
        }).await
    }
}
