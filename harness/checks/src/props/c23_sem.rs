//! C23: a semaphore never hands out more permits than it has, and loses none.

use crate::util::*;
use std::sync::Arc;

pub fn scenarios() -> Vec<Scenario> {
    vec![contend(), cancelled(), deadline(), histories(), every_way(), killed()]
}

struct Held(Shared<u32>, u32);

impl Held {
    fn new(c: &Shared<u32>, n: u32, max: u32) -> Held {
        let total = c.with(|c| {
            *c += n;
            *c
        });
        check!(total <= max, "too-many", "{} permits of {} are in use", total, max);
        Held(c.clone(), n)
    }
}

impl Drop for Held {
    fn drop(&mut self) {
        self.0.with(|c| *c -= self.1);
    }
}

/// Who waits how: one or several permits, borrowed or owned.
async fn user(s: Arc<OwnedSemaphore>, how: usize, used: Shared<u32>, max: u32) {
    match how {
        0 => {
            let _p = s.acquire().await;
            let _h = Held::new(&used, 1, max);
            tokio::task::yield_now().await;
        }
        1 => {
            let _p = s.acquire_owned().await;
            let _h = Held::new(&used, 1, max);
            tokio::task::yield_now().await;
        }
        2 => {
            let _p = s.acquire_many(2).await;
            let _h = Held::new(&used, 2, max);
            tokio::task::yield_now().await;
        }
        3 => {
            let _p = s.acquire_many_owned(2).await;
            let _h = Held::new(&used, 2, max);
            tokio::task::yield_now().await;
        }
        4 => {
            if let Ok(_p) = s.try_acquire() {
                let _h = Held::new(&used, 1, max);
                tokio::task::yield_now().await;
            }
        }
        _ => {
            if let Ok(_p) = s.try_acquire_owned() {
                let _h = Held::new(&used, 1, max);
                tokio::task::yield_now().await;
            }
        }
    }
}

/// All permits are there again.
fn check_full(s: &OwnedSemaphore, max: u32) {
    let mut all = vec![];
    while let Ok(p) = s.try_acquire() {
        all.push(p);
        check!(all.len() <= max as usize, "too-many", "{} permits of {}", all.len(), max);
    }
    check!(all.len() == max as usize, "lost-permits", "{} of {} permits are left", all.len(), max);
}

/// Three users of two permits.
fn contend() -> Scenario {
    sc("contend", (1, 2), 30).run(|| {
        mc::settle();
        mc::explore();
        let how = [mc::choose(6), mc::choose(4), mc::choose(4)];
        let s = Arc::new(OwnedSemaphore::new(2));
        let used = Shared::new(0);
        let done = Shared::new(0);
        for h in how {
            let (s, used, done) = (s.clone(), used.clone(), done.clone());
            proc("user", async move {
                user(s, h, used, 2).await;
                done.with(|d| *d += 1);
            });
        }
        mc::settle();
        check!(done.get() == 3, "starved", "{:?}: {} of 3 users were served", how, done.get());
        mc::quiet(|| check_full(&s, 2));
        no_stray_panics(&[]);
        mc::outcome(how);
    })
}

/// A waiting user gives up, before or after it has been served.
fn cancelled() -> Scenario {
    sc("cancelled", (2, 3), 4).run(|| {
        mc::settle();
        mc::explore();
        let (a, b) = (mc::choose(2) * 2, mc::choose(2) * 2);
        let s = Arc::new(OwnedSemaphore::new(2));
        let used = Shared::new(0);
        let done = Shared::new(0);
        let first = {
            let s = s.clone();
            mc::block_on(AssertSend(async move { s.acquire_many_owned(2).await }))
        };
        let waiter = {
            let (s, used, done) = (s.clone(), used.clone(), done.clone());
            Task::spawn(AssertSend(async move {
                user(s, a, used, 2).await;
                done.with(|d| *d += 1);
            }))
        };
        {
            let (s, used, done) = (s.clone(), used.clone(), done.clone());
            proc("user", async move {
                user(s, b + 1, used, 2).await;
                done.with(|d| *d += 10);
            });
        }
        task("canceller", async move {
            let _ = Task::shutdown(waiter).await;
        });
        task("releaser", async move {
            drop(first);
        });
        mc::settle();
        check!(done.get() >= 10, "starved", "the other user was not served after one gave up");
        mc::quiet(|| check_full(&s, 2));
        no_stray_panics(&[]);
        mc::outcome((a, b, done.get()));
    })
}

/// A user waits up to a deadline.
fn deadline() -> Scenario {
    sc("deadline", (2, 3), 3).timers(20).run(|| {
        mc::settle();
        mc::explore();
        let n = 1 + mc::choose(2) as u32;
        let s = Arc::new(OwnedSemaphore::new(2));
        let got = Shared::new(None);
        let first = {
            let s = s.clone();
            mc::block_on(AssertSend(async move { s.acquire_many_owned(2).await }))
        };
        {
            let (s, got) = (s.clone(), got.clone());
            proc("user", async move {
                let r = Process::timeout(ms(10), s.acquire_many(n)).await;
                got.set(Some(r.is_ok()));
            });
        }
        proc("releaser", async move {
            Process::sleep(ms(10)).await;
            drop(first);
        });
        mc::settle_for(SEC);
        check!(got.get().is_some(), "hang", "");
        mc::quiet(|| check_full(&s, 2));
        no_stray_panics(&[]);
        mc::outcome((n, got.get()));
    })
}

/// A process that holds or waits for permits is killed.
fn killed() -> Scenario {
    sc("killed", (2, 3), 4).run(|| {
        mc::settle();
        mc::explore();
        let (a, b) = (mc::choose(4), mc::choose(4));
        let s = Arc::new(OwnedSemaphore::new(2));
        let used = Shared::new(0);
        let done = Shared::new(0);
        let mut pids = vec![];
        for (i, h) in [a, b].into_iter().enumerate() {
            let (s, used, done) = (s.clone(), used.clone(), done.clone());
            pids.push(proc("user", async move {
                user(s, h, used, 2).await;
                done.with(|d| *d += 1 + 9 * i);
            }));
        }
        signal(pids[0], ExitReason::Kill);
        mc::settle();
        check!(done.get() >= 10, "starved", "the other user was not served");
        mc::quiet(|| check_full(&s, 2));
        no_stray_panics(&[]);
        mc::outcome((a, b, done.get()));
    })
}

/// Every history of takes in every way, of either kind of semaphore, given up at once if not served, and returns.
fn every_way() -> Scenario {
    let depth = if thorough() { 5 } else { 3 };
    seq("every-way", 500).secs(20.0, 400.0).run(move || {
        static PLAIN: [Semaphore; 4] = [Semaphore::new(1), Semaphore::new(2), Semaphore::new(3), Semaphore::new(100)];
        mc::settle();
        mc::explore();
        let cap = mc::choose(4);
        let max = [1, 2, 3, 100][cap];
        let o: &'static OwnedSemaphore = Box::leak(Box::new(OwnedSemaphore::new(max as usize)));
        let s = &PLAIN[cap];
        let mut held: [Vec<(u32, Box<dyn std::any::Any>)>; 2] = [vec![], vec![]];
        let mut trail = vec![];
        for _ in 0..depth {
            let op = mc::choose(14);
            trail.push(op);
            // 1, 2, or as many as there are.
            let kind = (op < 9) as usize;
            let free = max - held[kind].iter().map(|h| h.0).sum::<u32>();
            fn b<T: 'static>(x: T) -> Box<dyn std::any::Any> {
                Box::new(x)
            }
            let many = [1, 2, max];
            let got: (u32, Option<Box<dyn std::any::Any>>) = match op {
                0 => (1, o.try_acquire().ok().map(b)),
                1 => (1, o.try_acquire_owned().ok().map(b)),
                2 => (1, mc::block_on(AssertSend(poll_once(o.acquire()))).map(b)),
                3 => (1, mc::block_on(AssertSend(poll_once(o.acquire_owned()))).map(b)),
                4..=5 => (many[op - 3], mc::block_on(AssertSend(poll_once(o.acquire_many(many[op - 3])))).map(b)),
                6..=8 => (many[op - 6], mc::block_on(AssertSend(poll_once(o.acquire_many_owned(many[op - 6])))).map(b)),
                9 => (1, s.try_acquire().ok().map(b)),
                10 => (1, mc::block_on(AssertSend(poll_once(s.acquire()))).map(b)),
                11 => (many[1 + trail.len() % 2], mc::block_on(AssertSend(poll_once(s.acquire_many(many[1 + trail.len() % 2])))).map(b)),
                _ => {
                    for h in held.iter_mut() {
                        if !h.is_empty() {
                            h.remove(if op == 12 { 0 } else { h.len() - 1 });
                        }
                    }
                    continue;
                }
            };
            let (n, got) = got;
            check!(got.is_some() == (free >= n), if free >= n { "refused" } else { "too-many" }, "after {:?} of {}: {} free, {} wanted, got {}", trail, max, free, n, got.is_some());
            if let Some(p) = got {
                held[kind].push((n, p));
            }
        }
        drop(held);
        check_full(o, max);
        let mut all = vec![];
        while let Ok(p) = s.try_acquire() {
            all.push(p);
        }
        check!(all.len() == max as usize, "lost-permits", "{} of {} permits are left", all.len(), max);
        no_stray_panics(&[]);
        mc::outcome((max, trail));
    })
}

/// Every history of takes and returns.
fn histories() -> Scenario {
    seq("histories", 500).run(|| {
        static S: Semaphore = Semaphore::new(3);
        mc::settle();
        mc::explore();
        let mut held: Vec<(u32, SemaphorePermit<'static>)> = vec![];
        let mut trail = vec![];
        for _ in 0..6 {
            let free = 3 - held.iter().map(|h| h.0).sum::<u32>();
            let op = mc::choose(5);
            trail.push(op);
            match op {
                0 => match S.try_acquire() {
                    Ok(p) => {
                        check!(free >= 1, "too-many", "{:?}", trail);
                        held.push((1, p));
                    }
                    Err(_) => check!(free == 0, "refused", "{:?}: {} free", trail, free),
                },
                1 | 2 | 3 => {
                    let n = op as u32;
                    let p = mc::block_on(async { if n == 1 { poll_once(S.acquire()).await } else { poll_once(S.acquire_many(n)).await } });
                    check!(p.is_some() == (free >= n), "too-many", "{:?}: {} free, wanted {}: got {}", trail, free, n, p.is_some());
                    if let Some(p) = p {
                        held.push((n, p));
                    }
                }
                _ => {
                    if held.is_empty() {
                        return;
                    }
                    drop(held.remove(0));
                }
            }
        }
        no_stray_panics(&[]);
        mc::outcome(trail);
    })
}
