//! C21: an application runs until its process has ended, shuts down gracefully on a signal, within its limit.

use crate::sup::*;
use crate::util::*;
use tokio::signal::mc_raise;

pub fn scenarios() -> Vec<Scenario> {
    vec![ends(), graceful(), signal_race(), supervised(), tested(), durations()]
}

#[derive(Clone)]
struct Setup {
    ctl: Ctl,
    kind: Kind,
    fail: Option<&'static str>,
    panic: bool,
    sup: bool,
}

thread_local! {
    static LIMIT: std::cell::Cell<u64> = const { std::cell::Cell::new(2000) };
}

struct Strong(AssertSend<Setup>);
struct Plainly(AssertSend<Setup>);

async fn go(s: Setup) -> Result<Pid, ExitReason> {
    if s.panic {
        panic!("boom");
    }
    if let Some(f) = s.fail {
        return Err(ExitReason::from(f));
    }
    if s.sup {
        return Supervisor::new()
            .add_child(s.ctl.spec("a", s.kind).shutdown(Shutdown::Infinity))
            .add_child(s.ctl.spec("b", Kind::Trap(0)))
            .start_link(SupervisorOptions::new())
            .await;
    }
    s.ctl.start("main", s.kind).await
}

impl Application for Strong {
    fn config() -> ApplicationConfig {
        ApplicationConfig::new().with_graceful_shutdown(true).with_graceful_shutdown_timeout(ms(LIMIT.get()))
    }
    fn start(&self) -> impl Future<Output = Result<Pid, ExitReason>> + Send {
        AssertSend(go(self.0 .0.clone()))
    }
}

impl Application for Plainly {
    fn config() -> ApplicationConfig {
        ApplicationConfig::new()
    }
    fn start(&self) -> impl Future<Output = Result<Pid, ExitReason>> + Send {
        AssertSend(go(self.0 .0.clone()))
    }
}

fn setup(ctl: &Ctl, kind: Kind) -> Setup {
    Setup { ctl: ctl.clone(), kind, fail: None, panic: false, sup: false }
}

/// Runs an application in a thread of its own; tells when it has returned.
fn run(s: Setup, graceful: bool) -> Shared<Option<u64>> {
    let out = Shared::new(None);
    let o = out.clone();
    task("run", async move {
        let c = s.ctl.clone();
        if graceful {
            Strong(AssertSend(s)).run();
        } else {
            Plainly(AssertSend(s)).run();
        }
        check!(!c.any_running(), "returned-early", "processes run after the application has returned: {:?}", c.log());
        o.set(Some(mc::now()));
    });
    mc::settle();
    out
}

/// The process ends in every way, or does not start.
fn ends() -> Scenario {
    sc("ends", (1, 2), 18).run(|| {
        mc::settle();
        mc::explore();
        let (graceful, how) = (mc::choose(2) == 1, mc::choose(9));
        let cmds = [Cmd::Return, Cmd::Panic, Cmd::ExitNormal, Cmd::ExitShutdown, Cmd::ExitBad, Cmd::ExitKill];
        let ctl = Ctl::new();
        let mut s = setup(&ctl, Kind::Plain);
        if how >= 6 {
            s.fail = [Some("no"), Some("shutdown"), None][how - 6];
            s.panic = how == 8;
        }
        let out = run(s.clone(), graceful);
        if how < 6 {
            check!(out.get().is_none() && ctl.running("main").len() == 1, "returned-early", "{:?}", ctl.log());
            mc::settle_for(100 * SEC);
            check!(out.get().is_none(), "returned-early", "{:?}", ctl.log());
            ctl.cmd("main", cmds[how]);
            mc::settle();
        }
        check!(out.get().is_some(), "not-returned", "way {}: {:?}", how, ctl.log());
        check!(Process::list().is_empty(), "left-over", "{:?}", Process::list());
        // Another run in the same program works.
        s.fail = None;
        s.panic = false;
        let out = run(s, graceful);
        check!(out.get().is_none() && ctl.running("main").len() == 1, "second-run", "{:?}", ctl.log());
        ctl.cmd("main", Cmd::Return);
        mc::settle();
        check!(out.get().is_some(), "second-run", "");
        no_stray_panics(&[]);
        mc::outcome((graceful, how));
    })
}

/// A signal: asked to shut down, killed at the limit, returned then.
fn graceful() -> Scenario {
    sc("graceful", (1, 2), 12).run(|| {
        mc::settle();
        mc::explore();
        let (sig, k) = ([2, 15][mc::choose(2)], mc::choose(6));
        let kind = [Kind::Plain, Kind::Trap(0), Kind::Trap(500), Kind::Trap(1999), Kind::Trap(5000), Kind::Stubborn][k];
        let ctl = Ctl::new();
        let out = run(setup(&ctl, kind), true);
        mc::settle_for(5 * SEC);
        let t0 = mc::now();
        mc_raise(sig);
        mc::settle();
        let t = match kind {
            Kind::Plain => 0,
            Kind::Trap(t) => t.min(2000),
            Kind::Stubborn => 2000,
        };
        let asked = ctl.log().iter().any(|l| matches!(l, L::Asked(..)));
        check!(asked == (kind != Kind::Plain), "not-asked", "{:?}", ctl.log());
        if t > 0 {
            mc::settle_for((t - 1) * MS);
            check!(out.get().is_none() && ctl.running("main").len() == 1, "killed-early", "{:?} {} ms after the signal: {:?}", kind, t - 1, ctl.log());
            mc::settle_for(2 * MS);
        }
        mc::settle();
        check!(out.get().is_some_and(|x| x <= t0 + (t + 1) * MS), "not-returned", "{:?} after the signal: {:?} {:?}", kind, out.get().map(|x| (x - t0) / MS), ctl.log());
        check!(Process::list().is_empty(), "left-over", "{:?}", Process::list());
        no_stray_panics(&[]);
        mc::outcome((sig, kind));
    })
}

/// Every limit for the shutdown.
fn durations() -> Scenario {
    seq("durations", 50).run(|| {
        mc::settle();
        mc::explore();
        let (i, late, sig) = (mc::choose(SPANS.len()), mc::choose(2) == 1, [2, 15][mc::choose(2)]);
        let d = SPANS[i];
        let need = if late { d + 1 } else { d - 1 };
        LIMIT.set(d);
        let ctl = Ctl::new();
        let out = run(setup(&ctl, Kind::Trap(need)), true);
        mc::settle_for(5 * SEC);
        mc_raise(sig);
        let t = need.min(d);
        if t > 0 {
            mc::settle_for((t - 1) * MS);
            check!(out.get().is_none() && ctl.running("main").len() == 1, "killed-early", "limit {}, needs {}: {:?}", d, need, ctl.log());
            mc::settle_for(MS);
        }
        mc::settle_for(MS);
        check!(out.get().is_some() && !ctl.any_running(), "not-returned", "limit {}, needs {}: {:?}", d, need, ctl.log());
        check!(Process::list().is_empty(), "left-over", "{:?}", Process::list());
        LIMIT.set(2000);
        no_stray_panics(&[]);
        mc::outcome((i, late, sig));
    })
}

/// Signals against the end of the process, and against each other.
fn signal_race() -> Scenario {
    sc("signal-race", (1, 2), 12).timers(2500).run(|| {
        let ctl = Ctl::new();
        mc::settle();
        mc::explore();
        let (k, o, sig) = (mc::choose(3), mc::choose(3), [2, 15][mc::choose(2)]);
        let kind = [Kind::Plain, Kind::Trap(0), Kind::Trap(2000)][k];
        let out = mc::quiet(|| run(setup(&ctl, kind), true));
        mc_raise(sig);
        match o {
            0 => {
                ctl.cmd("main", Cmd::Panic);
            }
            1 => {
                ctl.cmd("main", Cmd::ExitNormal);
            }
            _ => mc_raise(17 - sig),
        }
        mc::settle_for(30 * SEC);
        check!(out.get().is_some(), "not-returned", "{:?}: {:?}", kind, ctl.log());
        check!(Process::list().is_empty(), "left-over", "{:?}", Process::list());
        check!(ctl.log().iter().filter(|l| matches!(l, L::Asked(..))).count() <= 1, "asked-twice", "{:?}", ctl.log());
        no_stray_panics(&[]);
        mc::outcome((kind, o, sig));
    })
}

/// With a supervisor: its children are shut down in order, within the limit of the application.
fn supervised() -> Scenario {
    sc("supervised", (1, 2), 6).run(|| {
        mc::settle();
        mc::explore();
        let (k, sig) = (mc::choose(3), [2, 15][mc::choose(2)]);
        let kind = [Kind::Trap(0), Kind::Trap(1000), Kind::Stubborn][k];
        let ctl = Ctl::new();
        let mut s = setup(&ctl, kind);
        s.sup = true;
        let out = run(s, true);
        check!(ctl.running("a").len() == 1 && ctl.running("b").len() == 1, "not-running", "{:?}", ctl.log());
        let from = ctl.log().len();
        mc_raise(sig);
        mc::settle_for(1500 * MS);
        if k < 2 {
            let want = vec![L::Asked("b", 1), L::End("b", 1), L::Asked("a", 0), L::End("a", 0)];
            check!(ctl.log()[from..] == want, "shutdown-order", "{:?}", ctl.log());
        } else {
            check!(out.get().is_none(), "returned-early", "{:?}", ctl.log());
        }
        mc::settle_for(1000 * MS);
        check!(out.get().is_some(), "not-returned", "{:?}", ctl.log());
        check!(Process::list().is_empty(), "left-over", "{:?}", Process::list());
        no_stray_panics(&[]);
        mc::outcome((kind, sig));
    })
}

/// `test` panics exactly if the process did not end cleanly.
fn tested() -> Scenario {
    sc("test", (1, 2), 8).run(|| {
        mc::settle();
        mc::explore();
        let how = mc::choose(8);
        let cmds = [Cmd::Return, Cmd::ExitNormal, Cmd::ExitShutdown, Cmd::Panic, Cmd::ExitBad, Cmd::ExitKill];
        let ctl = Ctl::new();
        let mut s = setup(&ctl, Kind::Plain);
        if how >= 6 {
            s.fail = Some(["no", "shutdown"][how - 6]);
        }
        let out = Shared::new(None);
        let o = out.clone();
        task("test", async move {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Plainly(AssertSend(s)).test()));
            o.set(Some(r.is_ok()));
        });
        mc::settle_for(10 * SEC);
        if how < 6 {
            check!(out.get().is_none(), "returned-early", "");
            ctl.cmd("main", cmds[how]);
            mc::settle();
        }
        let clean = how <= 2 || how == 7;
        check!(out.get() == Some(clean), "test-verdict", "way {}: passed {:?}, expected {}", how, out.get(), clean);
        no_stray_panics(&["Exited"]);
        mc::outcome(how);
    })
}
