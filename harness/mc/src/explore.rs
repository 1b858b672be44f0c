//! The search: forked executions, enumerated by number of deviations.

use crate::shm::{self, Entry};
use crate::{eng, run_engine, Config};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::rc::Rc;

pub use crate::interpose::real_now;

pub struct Scenario {
    pub name: String,
    pub cfg: Config,
    /// Highest number of deviations explored (quick, thorough).
    pub dev: (u32, u32),
    /// Seconds (quick, thorough). A level that does not finish is reported as partial.
    pub secs: (f64, f64),
    /// Minimum number of distinct outcomes expected; fewer means that the scenario is vacuous.
    pub min_outcomes: usize,
    pub run: Box<dyn Fn()>,
}

#[derive(Clone, Debug)]
pub struct Found {
    pub key: String,
    pub msg: String,
    pub choices: Vec<Entry>,
    pub deviations: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub name: String,
    pub executions: u64,
    pub pruned: u64,
    pub states: u64,
    pub transitions: u64,
    pub max_choices: usize,
    pub max_steps: u64,
    /// Number of deviations fully explored; -1 if not even the default level completed.
    pub completed_dev: i64,
    pub per_level: Vec<(u64, bool)>,
    pub exhausted: bool,
    pub outcomes: HashSet<u64>,
    pub known: BTreeMap<String, (u64, String)>,
    pub violation: Option<Found>,
    pub error: Option<String>,
    pub secs: f64,
    pub sample_choices: Vec<String>,
}

struct Node {
    parent: Option<(Rc<Node>, usize)>,
    /// Position of the first entry of `own` in the whole list.
    base: usize,
    own: Box<[Entry]>,
    dev: u32,
}

impl Node {
    fn prefix(self: &Rc<Self>, upto: usize, out: &mut Vec<Entry>) {
        // Entries [0, upto)
        if let Some((p, cut)) = &self.parent {
            let cut = (*cut).min(upto);
            p.prefix(cut, out);
        }
        if upto > self.base {
            out.extend_from_slice(&self.own[..upto - self.base]);
        }
    }
}

struct Job {
    parent: Option<(Rc<Node>, usize)>,
    alt: Option<Entry>,
    dev: u32,
}

struct Gen {
    node: Rc<Node>,
    i: usize,
    alt: u8,
}

struct Worker {
    cmd: i32,
    done: i32,
    slot: *mut shm::Slot,
    job: Option<Job>,
}

static mut CMD_FD: i32 = -1;
static mut DONE_FD: i32 = -1;

/// The process that ran the setup; the workers are its children.
static mut TEMPLATE: i32 = 0;
const MAXW: usize = 64;
static mut NW: usize = 0;
/// (slot, command read end, done write end) of each worker, for the template.
static mut PLAN: [(*mut shm::Slot, i32, i32); MAXW] = [(std::ptr::null_mut(), -1, -1); MAXW];

/// In the template: forks the workers. In a worker: serves executions; returns in the forked child.
pub(crate) fn serve() {
    unsafe {
        // The limit was for the setup.
        libc::alarm(0);
        for i in 0..NW {
            let (slot, cmd, done) = PLAN[i];
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                for j in 0..NW {
                    if j != i {
                        libc::close(PLAN[j].1);
                        libc::close(PLAN[j].2);
                    }
                }
                CMD_FD = cmd;
                DONE_FD = done;
                shm::set_slot(slot);
                worker();
                return;
            }
        }
        for i in 0..NW {
            libc::close(PLAN[i].1);
            libc::close(PLAN[i].2);
        }
        loop {
            let mut st = 0;
            if libc::waitpid(-1, &mut st, 0) < 0 {
                libc::_exit(0);
            }
        }
    }
}

fn worker() {
    unsafe {
        loop {
            let mut b = [0u8; 1];
            let r = libc::read(CMD_FD, b.as_mut_ptr() as *mut _, 1);
            if r != 1 {
                libc::_exit(0);
            }
            let s = shm::slot();
            s.status = shm::NONE;
            s.ntrace = 0;
            s.msglen = 0;
            s.steps = 0;
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::alarm(20);
                eng().verbose = s.verbose != 0;
                return;
            }
            if pid < 0 {
                s.status = shm::CRASH;
                let m = b"fork failed";
                s.msg[..m.len()].copy_from_slice(m);
                s.msglen = m.len() as u32;
            } else {
                let mut st = 0i32;
                libc::waitpid(pid, &mut st, 0);
                if s.status == shm::NONE || (st & 0x7f) != 0 {
                    let m = if (st & 0x7f) != 0 {
                        let sig = st & 0x7f;
                        if sig == libc::SIGALRM {
                            "hang\x1fthe execution did not finish (busy loop without a scheduling point)".to_string()
                        } else {
                            format!("crash\x1fthe process died from signal {}", sig)
                        }
                    } else {
                        format!("crash\x1fthe process exited with status {}", (st >> 8) & 0xff)
                    };
                    s.status = shm::CRASH;
                    let m = m.as_bytes();
                    s.msg[..m.len()].copy_from_slice(m);
                    s.msglen = m.len() as u32;
                }
            }
            libc::write(DONE_FD, b.as_ptr() as *const _, 1);
        }
    }
}

fn start_workers(sc: &Scenario, n: usize) -> Vec<Worker> {
    unsafe {
        let n = n.clamp(1, MAXW);
        let mut ws = Vec::new();
        NW = n;
        for i in 0..n {
            let slot = shm::alloc_slot();
            let mut a = [0i32; 2];
            let mut b = [0i32; 2];
            assert!(libc::pipe(a.as_mut_ptr()) == 0 && libc::pipe(b.as_mut_ptr()) == 0);
            PLAN[i] = (slot, a[0], b[1]);
            ws.push(Worker { cmd: a[1], done: b[0], slot, job: None });
        }
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            for w in &ws {
                libc::close(w.cmd);
                libc::close(w.done);
            }
            shm::set_slot(ws[0].slot);
            libc::alarm(60);
            let run: &'static dyn Fn() = std::mem::transmute::<&dyn Fn(), &'static dyn Fn()>(&*sc.run);
            run_engine(sc.cfg.clone(), false, Box::new(move || run()));
        }
        for i in 0..n {
            libc::close(PLAN[i].1);
            libc::close(PLAN[i].2);
        }
        TEMPLATE = pid;
        ws
    }
}

fn kill_workers(ws: &mut Vec<Worker>) {
    unsafe {
        if TEMPLATE > 0 {
            libc::kill(TEMPLATE, libc::SIGKILL);
            let mut st = 0;
            libc::waitpid(TEMPLATE, &mut st, 0);
            TEMPLATE = 0;
        }
        for w in ws.iter() {
            libc::close(w.cmd);
            libc::close(w.done);
            libc::munmap(w.slot as *mut _, std::mem::size_of::<shm::Slot>());
        }
    }
    ws.clear();
}

fn slot_msg(s: &shm::Slot) -> String {
    String::from_utf8_lossy(&s.msg[..s.msglen as usize]).into_owned()
}

/// Sends one job to a worker and waits for it (used for replays).
fn run_one(w: &Worker, choices: &[Entry], verbose: bool) -> Result<(), String> {
    unsafe {
        let s = &mut *w.slot;
        s.nprefix = choices.len() as u32;
        s.prefix[..choices.len()].copy_from_slice(choices);
        s.prune = 0;
        s.verbose = verbose as u32;
        s.status = shm::NONE;
        let b = [1u8];
        if libc::write(w.cmd, b.as_ptr() as *const _, 1) != 1 {
            return Err("worker is gone".into());
        }
        let mut b = [0u8; 1];
        if libc::read(w.done, b.as_mut_ptr() as *mut _, 1) != 1 {
            return Err("worker died".into());
        }
    }
    Ok(())
}

fn split_msg(m: &str) -> (String, String) {
    match m.split_once('\x1f') {
        Some((k, m)) => (k.to_string(), m.to_string()),
        None => ("error".to_string(), m.to_string()),
    }
}

fn replay_on(w: &Worker, choices: &[Entry], verbose: bool) -> Result<(u32, String, String), String> {
    let r = run_one(w, choices, verbose);
    let s = unsafe { &*w.slot };
    match r {
        Err(e) if s.status == shm::NONE => Err(e),
        _ => {
            let (k, m) = split_msg(&slot_msg(s));
            Ok((s.status, k, m))
        }
    }
}

/// Replays one choice list; returns (status, key, message).
pub fn replay(sc: &Scenario, choices: &[Entry], verbose: bool) -> Result<(u32, String, String), String> {
    crate::interpose::init();
    unsafe { libc::signal(libc::SIGPIPE, libc::SIG_IGN) };
    let mut ws = start_workers(sc, 1);
    // Another process: object identities may hash differently.
    let choices: Vec<Entry> = choices.iter().map(|e| Entry { site: 0, ..*e }).collect();
    let out = replay_on(&ws[0], &choices, verbose);
    kill_workers(&mut ws);
    out
}

pub fn status_name(s: u32) -> &'static str {
    match s {
        shm::OK => "ok",
        shm::VIOLATION => "violation",
        shm::PRUNED => "pruned",
        shm::DIVERGED => "diverged",
        shm::CRASH => "crash",
        _ => "none",
    }
}

pub fn explore_scenario(
    sc: &Scenario,
    thorough: bool,
    jobs: usize,
    known: &dyn Fn(&str, &str) -> Option<String>,
) -> Report {
    crate::interpose::init();
    let max_dev = if thorough { sc.dev.1 } else { sc.dev.0 };
    let secs = if thorough { sc.secs.1 } else { sc.secs.0 };
    let t0 = real_now();
    let mut rep = Report { name: sc.name.clone(), completed_dev: -1, ..Default::default() };

    unsafe { libc::signal(libc::SIGPIPE, libc::SIG_IGN) };
    shm::seen_alloc();
    let mut ws: Vec<Worker> = start_workers(sc, jobs);

    // Levels: executions found so far whose alternatives are not generated yet.
    let mut pending: Vec<VecDeque<Gen>> = (0..=max_dev as usize + 1).map(|_| VecDeque::new()).collect();
    let mut first = Some(Job { parent: None, alt: None, dev: 0 });
    let mut level = 0usize;
    let mut level_jobs = 0u64;
    let mut inflight = 0usize;
    let mut stop = false;
    let mut stored = 0usize;
    let mut overflow = false;
    let mut candidate: Option<Found> = None;
    let mut buf: Vec<Entry> = Vec::new();

    // Generators of a level: deviations that lead from a node of level d to level d or d+1.
    // `pending[d]` holds nodes whose alternatives with resulting cost d are to be run.
    'outer: loop {
        // Feed idle workers.
        let mut fed = true;
        while fed && !stop {
            fed = false;
            for wi in 0..ws.len() {
                if ws[wi].job.is_some() {
                    continue;
                }
                let job = if let Some(j) = first.take() {
                    Some(j)
                } else {
                    next_job(&mut pending[level], level as u32)
                };
                let Some(job) = job else { break };
                buf.clear();
                if let Some((p, i)) = &job.parent {
                    p.prefix(*i, &mut buf);
                    buf.push(job.alt.unwrap());
                }
                let w = &mut ws[wi];
                unsafe {
                    let s = &mut *w.slot;
                    s.nprefix = buf.len() as u32;
                    s.prefix[..buf.len()].copy_from_slice(&buf);
                    s.prune = 1;
                    s.verbose = 0;
                    let b = [1u8];
                    if libc::write(w.cmd, b.as_ptr() as *const _, 1) != 1 {
                        // The worker ended in its setup; the status says why.
                    }
                }
                w.job = Some(job);
                inflight += 1;
                level_jobs += 1;
                fed = true;
            }
        }
        if inflight == 0 {
            if stop {
                rep.per_level.push((level_jobs, false));
                break;
            }
            // The level is complete.
            rep.per_level.push((level_jobs, true));
            rep.completed_dev = level as i64;
            level_jobs = 0;
            level += 1;
            if level > max_dev as usize {
                break;
            }
            if pending[level].is_empty() {
                rep.exhausted = !overflow;
                break;
            }
            if overflow {
                break;
            }
            continue;
        }
        // Wait for a result.
        let mut fds: Vec<libc::pollfd> = ws
            .iter()
            .map(|w| libc::pollfd {
                fd: if w.job.is_some() { w.done } else { -1 },
                events: libc::POLLIN,
                revents: 0,
            })
            .collect();
        unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as _, 1000) };
        // The default schedules (and all data choices) are always completed.
        if real_now() - t0 > if level == 0 { secs.max(250.0) } else { secs } {
            stop = true;
        }
        if shm::seen_full() {
            stop = true;
        }
        for wi in 0..ws.len() {
            if fds[wi].revents == 0 {
                continue;
            }
            let mut b = [0u8; 1];
            let r = unsafe { libc::read(ws[wi].done, b.as_mut_ptr() as *mut _, 1) };
            let job = ws[wi].job.take().unwrap();
            inflight -= 1;
            let s = if r == 1 { unsafe { &*ws[wi].slot } } else { unsafe { &*ws[0].slot } };
            if r != 1 {
                // Died during setup.
                let (k, m) = split_msg(&slot_msg(s));
                if s.status == shm::VIOLATION {
                    // The deterministic setup itself fails: a violation with no choices.
                    candidate = Some(Found { key: k, msg: format!("(during setup) {}", m), choices: vec![], deviations: 0 });
                } else {
                    rep.error = Some(format!("worker died in setup: {} {} {}", status_name(s.status), k, m));
                }
                break 'outer;
            }
            rep.executions += 1;
            rep.transitions += s.steps;
            rep.max_steps = rep.max_steps.max(s.steps);
            let n = s.ntrace as usize;
            rep.max_choices = rep.max_choices.max(n);
            match s.status {
                shm::OK => {
                    rep.outcomes.insert(s.outcome);
                    if rep.sample_choices.len() < 3 {
                        let v: Vec<String> = s.trace[..n]
                            .iter()
                            .enumerate()
                            .filter(|(_, e)| e.c != 0)
                            .map(|(i, e)| format!("{}:{}/{}", i, e.c, e.n))
                            .collect();
                        rep.sample_choices.push(format!(
                            "{} choices, {} steps, non-default [{}]",
                            n,
                            s.steps,
                            v.join(" ")
                        ));
                    }
                }
                shm::PRUNED => rep.pruned += 1,
                shm::DIVERGED => {
                    rep.error = Some(format!("{} (nondeterminism that is not controlled)", slot_msg(s)));
                    break 'outer;
                }
                shm::VIOLATION | shm::CRASH => {
                    let (k, m) = split_msg(&slot_msg(s));
                    if let Some(id) = known(&k, &m) {
                        let e = rep.known.entry(id).or_insert((0, m));
                        e.0 += 1;
                    } else if candidate.is_none() {
                        candidate = Some(Found {
                            key: k,
                            msg: m,
                            choices: s.trace[..n].to_vec(),
                            deviations: job.dev,
                        });
                        break 'outer;
                    }
                }
                _ => {
                    rep.error = Some("execution without a result".into());
                    break 'outer;
                }
            }
            // Expand.
            let plen = match &job.parent {
                Some((_, i)) => i + 1,
                None => 0,
            };
            if n < plen {
                rep.error = Some("execution ended before its prefix was replayed".into());
                break 'outer;
            }
            let base = plen.saturating_sub(1);
            let own: Box<[Entry]> = s.trace[base..n].to_vec().into_boxed_slice();
            let has_data = own[plen - base..].iter().any(|e| e.cost == 0);
            let has_dev = (job.dev < max_dev) && n > plen;
            if has_data || has_dev {
                stored += own.len() * 8 + 96;
                if stored > 6_000_000_000 {
                    overflow = true;
                    stop = true;
                    continue;
                }
                let node = Rc::new(Node { parent: job.parent.clone(), base, own, dev: job.dev });
                if has_data {
                    pending[job.dev as usize].push_front(Gen { node: node.clone(), i: plen, alt: 1 });
                }
                if has_dev {
                    pending[job.dev as usize + 1].push_back(Gen { node, i: plen, alt: 1 });
                }
            }
        }
    }

    rep.states = shm::seen_count();

    if let Some(c) = candidate {
        // Confirm with two replays: on a worker, and from a new setup.
        let mut same = true;
        for round in 0..2 {
            let r = if round == 0 && !c.msg.starts_with("(during setup)") {
                // Drain what is still in flight on this worker first.
                let w = &ws[0];
                if w.job.is_some() {
                    let mut b = [0u8; 1];
                    unsafe { libc::read(w.done, b.as_mut_ptr() as *mut _, 1) };
                }
                replay_on(w, &c.choices, false)
            } else {
                kill_workers(&mut ws);
                replay(sc, &c.choices, false)
            };
            match r {
                Ok((st, k, m)) => {
                    let msg = if c.msg.starts_with("(during setup)") { format!("(during setup) {}", m) } else { m.clone() };
                    if !((st == shm::VIOLATION || st == shm::CRASH) && k == c.key && msg == c.msg) {
                        rep.error = Some(format!(
                            "violation {:?} {} did not replay ({}): {} {} {}",
                            c.key,
                            c.msg,
                            round,
                            status_name(st),
                            k,
                            m
                        ));
                        same = false;
                    }
                }
                Err(e) => {
                    rep.error = Some(format!("replay failed: {}", e));
                    same = false;
                }
            }
        }
        if same {
            rep.violation = Some(c);
        }
    }
    kill_workers(&mut ws);
    shm::seen_free();
    rep.secs = real_now() - t0;
    rep
}

fn next_job(q: &mut VecDeque<Gen>, level: u32) -> Option<Job> {
    while let Some(g) = q.front_mut() {
        let end = g.node.base + g.node.own.len();
        // The cost of entries that lead to this level.
        let want = (level - g.node.dev) as u8;
        while g.i < end {
            let e = g.node.own[g.i - g.node.base];
            if e.cost == want && g.alt < e.n {
                let alt = Entry { c: g.alt, ..e };
                g.alt += 1;
                return Some(Job { parent: Some((g.node.clone(), g.i)), alt: Some(alt), dev: level });
            }
            g.i += 1;
            g.alt = 1;
        }
        q.pop_front();
    }
    None
}
