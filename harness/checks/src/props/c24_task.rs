//! C24: a task hands over its result exactly as it ended, and shutdown ends it.

use crate::util::*;

pub fn scenarios() -> Vec<Scenario> {
    vec![many(), shut(), detached(), sends()]
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum How {
    Now,
    Later(u64),
    Panic,
    PanicLater(u64),
    Blocking,
}

fn spawn(how: How, n: u32, ran: &Shared<Vec<u32>>) -> TaskHandle<u32> {
    let r = AssertSend(ran.clone());
    match how {
        How::Blocking => Task::spawn_blocking(move || {
            let r = r;
            r.0.push(n);
            n
        }),
        _ => Task::spawn(AssertSend(async move {
            let r = r;
            match how {
                How::Later(t) => tokio::time::sleep(ms(t)).await,
                How::PanicLater(t) => {
                    tokio::time::sleep(ms(t)).await;
                    panic!("boom");
                }
                How::Panic => panic!("boom"),
                _ => (),
            }
            r.0.push(n);
            n
        })),
    }
}

const HOWS: [How; 6] = [How::Now, How::Later(10), How::Later(5), How::Panic, How::PanicLater(7), How::Blocking];

/// Three tasks awaited together, and one by one.
fn many() -> Scenario {
    sc("await", (1, 2), 100).run(|| {
        mc::settle();
        mc::explore();
        let hows = [HOWS[mc::choose(6)], HOWS[mc::choose(6)], HOWS[mc::choose(6)]];
        let together = mc::choose(2) == 0;
        let ran = Shared::new(vec![]);
        let out: Shared<Option<Vec<Result<u32, String>>>> = Shared::new(None);
        let (r2, o2) = (ran.clone(), out.clone());
        proc("awaiter", async move {
            let tasks = [spawn(hows[0], 1, &r2), spawn(hows[1], 2, &r2), spawn(hows[2], 3, &r2)];
            if together {
                o2.set(Some(match Task::await_many(tasks).await {
                    Ok(v) => v.into_iter().map(Ok).collect(),
                    Err(e) => vec![Err(e.0)],
                }));
            } else {
                let mut v = vec![];
                for t in tasks {
                    let r = t.await;
                    v.push(r.map_err(|e| e.0));
                }
                o2.set(Some(v));
            }
        });
        mc::settle_for(SEC);
        let got = out.get().unwrap_or_else(|| mc::violation("await-hang", &format!("{:?}", hows)));
        let fails = |h: &How| matches!(h, How::Panic | How::PanicLater(_));
        if together && hows.iter().any(fails) {
            check!(got.len() == 1 && got[0].as_ref().is_err_and(|e| e.contains("panic")), "await-result", "{:?}: {:?}", hows, got);
        } else {
            check!(got.len() == 3, "await-result", "{:?}: {:?}", hows, got);
            for (i, h) in hows.iter().enumerate() {
                let ok = if fails(h) { got[i].as_ref().is_err_and(|e| e.contains("panic")) } else { got[i] == Ok(i as u32 + 1) };
                check!(ok, "await-result", "{:?}: {:?}", hows, got);
            }
        }
        // Every task has run to its end, once.
        let mut r = ran.get();
        r.sort();
        let want: Vec<u32> = (0..3).filter(|i| !fails(&hows[*i as usize])).map(|i| i + 1).collect();
        check!(r == want, "task-runs", "{:?}: {:?}", hows, r);
        no_stray_panics(&[]);
        mc::outcome((hows, together));
    })
}

/// Shutdown at any moment: the result, or an error and no further step of the task.
fn shut() -> Scenario {
    sc("shutdown", (4, 6), 4).timers(30).run(|| {
        mc::settle();
        mc::explore();
        let how = [How::Now, How::Later(10), How::Panic][mc::choose(3)];
        let wait = mc::choose(2) == 0;
        let ran = Shared::new(vec![]);
        let out: Shared<Option<Result<u32, String>>> = Shared::new(None);
        let (r2, o2) = (ran.clone(), out.clone());
        proc("owner", async move {
            let t = spawn(how, 7, &r2);
            if wait {
                Process::sleep(ms(10)).await;
            }
            let r = Task::shutdown(t).await;
            let n = r2.get().len();
            check!(r.is_ok() == (n == 1), "shutdown-result", "{:?}: {:?}, ran {}", how, r, n);
            o2.set(Some(r.map_err(|e| e.0)));
            let r3 = r2.clone();
            Process::sleep(ms(50)).await;
            check!(r3.get().len() == n, "runs-on", "{:?}: the task ran on after its shutdown", how);
        });
        mc::settle_for(SEC);
        let got = out.get().unwrap_or_else(|| mc::violation("shutdown-hang", &format!("{:?}", how)));
        if let Ok(v) = &got {
            check!(*v == 7, "shutdown-result", "{:?}", got);
        }
        no_stray_panics(&[]);
        mc::outcome((how, wait, got));
    })
}

/// A task whose handle or owner is gone runs on.
fn detached() -> Scenario {
    sc("detached", (2, 3), 4).run(|| {
        mc::settle();
        mc::explore();
        let (how, way) = ([How::Now, How::Later(10)][mc::choose(2)], mc::choose(2));
        let ran = Shared::new(vec![]);
        let r2 = ran.clone();
        let pid = proc("owner", async move {
            let t = spawn(how, 7, &r2);
            if way == 0 {
                drop(t);
            } else {
                let _ = t.await;
            }
        });
        if way == 1 {
            signal(pid, ExitReason::Kill);
        }
        mc::settle_for(SEC);
        // Killed before it could start the task, or the task has run.
        check!(way == 1 || ran.get() == vec![7], "not-run", "{:?}: {:?}", how, ran.get());
        no_stray_panics(&[]);
        mc::outcome((how, way, ran.get()));
    })
}

/// A task may send to processes: messages arrive in order.
fn sends() -> Scenario {
    sc("sends", (3, 4), 2).run(|| {
        let log = Shared::new(vec![]);
        let l = log.clone();
        let pid = proc("receiver", collect(l));
        mc::settle();
        mc::explore();
        let two = mc::choose(2) == 1;
        let mut hs = vec![];
        for k in 0..=(two as u32) {
            hs.push(Task::spawn(async move {
                for i in 0..2 {
                    Process::send(pid, M::N(10 * k + i));
                }
            }));
        }
        mc::settle();
        let got = log.get();
        for k in 0..=(two as u32) {
            let mine: Vec<u32> = got.iter().filter_map(|e| if let Ev::Msg(M::N(n)) = e { (n / 10 == k).then_some(n % 10) } else { None }).collect();
            check!(mine == vec![0, 1], "send-order", "{:?}", got);
        }
        no_stray_panics(&[]);
        mc::outcome(two);
    })
}
