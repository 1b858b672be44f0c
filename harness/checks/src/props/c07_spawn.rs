//! C07: a spawned process is fully registered from its first instruction until it has ended, and
//! leaves nothing behind.

use crate::util::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![short_lived(), kill_at_once(), siblings(), observed_end()]
}

fn gone(pid: Pid) {
    check!(!Process::alive(pid), "alive-after-end", "an ended process is reported alive");
    check!(!Process::list().contains(&pid), "zombie", "an ended process is still listed");
    check!(Process::info(pid).is_none(), "zombie", "an ended process still has info");
}

/// A process that ends at once, in each possible way, after operations on itself.
fn short_lived() -> Scenario {
    sc("short-lived", (3, 6), 4).run(|| {
        mc::settle();
        mc::explore();
        let kind = mc::choose(4);
        let seen = Shared::new(None);
        let s2 = seen.clone();
        let pid = proc("child", async move {
            trap();
            let me = Process::current();
            let reg = Process::register(me, "child").is_ok();
            s2.set(Some((Process::flags(), Process::alive(me), Process::list().contains(&me), reg, Process::whereis("child") == Some(me))));
            match kind {
                0 => (),
                1 => panic!("boom"),
                2 => {
                    Process::exit(Process::current(), "own");
                    std::future::pending::<()>().await;
                }
                _ => tokio::task::yield_now().await,
            }
        });
        mc::settle();
        check!(
            seen.get() == Some((ProcessFlags::TRAP_EXIT, true, true, true, true)),
            "first-op-lost",
            "(flags, alive, listed, register, whereis) seen by the process itself: {:?}",
            seen.get()
        );
        gone(pid);
        check!(Process::whereis("child").is_none() && Process::registered().is_empty(), "zombie-name", "its name is still taken");
        no_stray_panics(&[]);
        mc::outcome(kind);
    })
}

/// A process that is ended right after it was spawned.
fn kill_at_once() -> Scenario {
    sc("kill-at-once", (3, 6), 2).run(|| {
        let gate = Gate::new();
        let pids = Shared::new(Vec::new());
        let ran = Shared::new(0u32);
        let log = Shared::new(Vec::new());
        {
            let (gate, pids, ran, log) = (gate.clone(), pids.clone(), ran.clone(), log.clone());
            proc("parent", async move {
                gate.wait().await;
                let (pid, r) = Process::spawn_monitor(AssertSend(async move {
                    ran.with(|n| *n += 1);
                    std::future::pending::<()>().await
                }));
                pids.push((pid, r));
                Process::exit(pid, ExitReason::Kill);
                collect(log).await
            });
        }
        mc::settle();
        mc::explore();
        gate.open();
        mc::settle();
        let (pid, r) = pids.get()[0];
        gone(pid);
        check!(log.get() == vec![Ev::Down(DestR::Pid(pid), r, ExitR::Kill)], "monitor", "{} events", log.get().len());
        check!(ran.get() <= 1, "ran-twice", "{}", ran.get());
        no_stray_panics(&[]);
        mc::outcome(ran.get());
    })
}

/// Processes spawned from several places at once: distinct ids, each one listed, each body runs once.
fn siblings() -> Scenario {
    sc("siblings", (2, 3), 1).run(|| {
        let gate = Gate::new();
        let pids = Shared::new(Vec::new());
        let ran = Shared::new(Vec::new());
        for i in 0..2 {
            let (gate, pids, ran) = (gate.clone(), pids.clone(), ran.clone());
            proc("spawner", async move {
                gate.wait().await;
                for j in 0..2 {
                    let ran = ran.clone();
                    let pid = proc("child", async move {
                        let me = Process::current();
                        ran.push((i, j, me));
                        std::future::pending::<()>().await
                    });
                    pids.push((i, j, pid));
                }
                std::future::pending::<()>().await
            });
        }
        mc::settle();
        let before = Process::list().len();
        mc::explore();
        gate.open();
        mc::settle();
        let (mut a, mut b) = (pids.get(), ran.get());
        a.sort();
        b.sort();
        check!(a == b, "pid-mismatch", "pids returned by spawn and seen by the processes differ");
        let set: BTreeSet<Pid> = a.iter().map(|x| x.2).collect();
        check!(set.len() == 4, "pid-unique", "{} distinct pids for 4 processes", set.len());
        let l = Process::list();
        check!(l.len() == before + 4 && set.iter().all(|p| l.contains(p)), "list", "{} processes listed, expected {}", l.len(), before + 4);
        check!(set.iter().all(|p| Process::alive(*p)), "alive", "");
        no_stray_panics(&[]);
        mc::outcome(a.len());
    })
}

/// Whoever learns of the end of a process finds it gone, and its name free.
fn observed_end() -> Scenario {
    sc("observed-end", (2, 4), 3).run(|| {
        let gate = Gate::new();
        let kind = Shared::new(0usize);
        let t = {
            let (gate, kind) = (gate.clone(), kind.clone());
            proc("target", async move {
                gate.wait().await;
                match kind.get() {
                    0 => (),
                    1 => panic!("boom"),
                    _ => {
                        Process::exit(Process::current(), "own");
                        std::future::pending::<()>().await
                    }
                }
            })
        };
        Process::register(t, "t").unwrap();
        let seen = Shared::new(Vec::new());
        for link in [false, true] {
            let seen = seen.clone();
            proc("watcher", async move {
                trap();
                if link {
                    Process::link(t);
                } else {
                    let _ = Process::monitor(t);
                }
                let _ = Process::receive::<M>().await;
                let re = Process::register(Process::current(), "t");
                seen.push((Process::alive(t), Process::list().contains(&t), re.is_ok() || Process::whereis("t") != Some(t)));
                std::future::pending::<()>().await
            });
        }
        mc::settle();
        mc::explore();
        kind.set(mc::choose(3));
        gate.open();
        mc::settle();
        check!(seen.get().len() == 2, "end-unseen", "{} of 2 watchers were told", seen.get().len());
        for s in seen.get() {
            check!(!s.0 && !s.1, "alive-after-end", "told of the end, but alive {} listed {}", s.0, s.1);
            check!(s.2, "name-after-end", "told of the end, but the name still leads there");
        }
        no_stray_panics(&[]);
        mc::outcome((kind.get(), Process::whereis("t").is_some()));
    })
}
