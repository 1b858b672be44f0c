//! A small stateless model checker for cooperative (coroutine based) execution of real Rust code.
//!
//! One OS thread runs every task as a stackful coroutine. A task can be descheduled in front of
//! every operation on a shared object (`point`), and whenever it blocks. Every place where more
//! than one continuation exists is a *choice*; an execution is identified by its choice list.
//! `explore` enumerates choice lists exhaustively, ordered by the number of deviations from the
//! default schedule (see `explore.rs`).

#![allow(static_mut_refs)]
#![allow(clippy::all)]

mod explore;
mod interpose;
mod shm;

pub use explore::*;
pub use shm::Entry;

use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::collections::HashMap;
use std::collections::VecDeque;
use std::rc::Rc;
use std::task::{RawWaker, RawWakerVTable, Waker};

use corosensei::stack::{Stack, StackPointer};
use corosensei::{Coroutine, CoroutineResult, Yielder};

pub type TaskId = usize;

/// The kind of access to a resource; `Write` includes read-modify-write.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Acc {
    Read,
    Write,
}

/// An id for a shared object, the same in every execution in which the same task history creates it.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Res(pub u64);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Running,
    Parked,
    Blocked,
    Settle,
    Done,
}

type Body = Box<dyn FnOnce()>;

struct Task {
    co: Option<Coroutine<(), (), (), ArenaStack>>,
    low: usize,
    yielder: *const Yielder<(), ()>,
    st: St,
    notified: bool,
    canon: u64,
    hist: u64,
    nspawn: u64,
    nres: u64,
    nrand: u64,
    node: usize,
    runtime: usize,
    locals: HashMap<usize, Rc<RefCell<Option<Box<dyn Any>>>>>,
    name: String,
    /// Disables scheduling choices (e.g. critical harness sections)
    quiet: u32,
}

struct Timer {
    waker: Waker,
    owner: u64,
}

#[derive(Clone)]
pub struct Config {
    /// Timers may fire as a deviation while other tasks are runnable.
    pub timer_dev: bool,
    /// Timers later than this (relative to explore()) are never fired early.
    pub timer_dev_horizon: u64,
    /// Max scheduling steps for one execution.
    pub max_steps: u64,
    /// No scheduling choices at all: only data choices (`choose`, `fault`).
    pub no_sched: bool,
    /// Choices only when tasks block, not preemption inside running task.
    pub no_preempt: bool,
    /// short reads / split deliveries in the virtual network become choices
    pub net_chunks: bool,
}

impl Default for Config {
    fn default() -> Self {
        Config {
            timer_dev: false,
            timer_dev_horizon: u64::MAX,
            max_steps: 60_000,
            no_sched: false,
            no_preempt: false,
            net_chunks: false,
        }
    }
}

pub(crate) struct Engine {
    tasks: Vec<Task>,
    cur: TaskId,
    in_task: bool,
    node_hook: Option<fn(usize)>,
    hook_node: usize,
    in_hook: bool,
    /// Initial values for node 0, own copies for the others.
    statics: HashMap<(usize, usize), Box<u64>>,
    hook_statics: Vec<usize>,
    ready: VecDeque<TaskId>,
    low: VecDeque<TaskId>,
    settle: VecDeque<TaskId>,
    blocked: Vec<(Res, TaskId)>,
    now: u64,
    timers: BTreeMap<(u64, u64), Timer>,
    timer_seq: u64,
    res: HashMap<Res, u64>,
    res_sum: u64,
    pub(crate) exploring: bool,
    pub(crate) setup: bool,
    steps: u64,
    cfg: Config,
    stacks: Vec<ArenaStack>,
    main_done: bool,
    outcome: u64,
    pub(crate) verbose: bool,
    explore_start: u64,
    pub(crate) panics: Vec<String>,
    addrs: HashMap<usize, Res>,
}

pub(crate) static mut ENGINE: Option<Box<Engine>> = None;

#[inline]
pub(crate) fn active() -> bool {
    unsafe { (*std::ptr::addr_of!(ENGINE)).is_some() }
}

#[inline]
pub(crate) fn eng() -> &'static mut Engine {
    unsafe { (*std::ptr::addr_of_mut!(ENGINE)).as_mut().expect("mc: engine not running") }
}

#[inline]
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a
        .rotate_left(23)
        .wrapping_mul(0x9E37_79B9_7F4A_7C15)
        .wrapping_add(b ^ 0xD1B5_4A32_D192_ED03);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h, s.len() as u64)
}

// ------------------------------------------------------------------------------------------------
// Tasks

/// True when the caller runs inside a controlled task.
#[inline]
pub fn in_task() -> bool {
    active() && eng().in_task
}

pub fn current() -> TaskId {
    eng().cur
}

pub fn current_canon() -> u64 {
    let e = eng();
    e.tasks[e.cur].canon
}

/// The virtual node (set of hydra statics) of the current task.
pub fn node() -> usize {
    if !in_task() {
        return 0;
    }
    let e = eng();
    e.tasks[e.cur].node
}

pub fn set_node(node: usize) {
    let e = eng();
    e.tasks[e.cur].node = node;
    node_switched();
}

/// Called whenever a task of another node than before continues (for statics that aren't per node), and now.
pub fn on_node_switch(f: fn(usize)) {
    let e = eng();
    e.node_hook = Some(f);
    e.hook_node = usize::MAX;
    node_switched();
}

/// The current node's own copy of a static counter.
pub(crate) fn node_static(p: *mut u64) -> *mut u64 {
    let e = eng();
    let first = unsafe { *p };
    let init = *e.statics.entry((0, p as usize)).or_insert_with(|| Box::new(first)).as_ref();
    match e.tasks[e.cur].node {
        0 => p,
        n => e.statics.entry((n, p as usize)).or_insert_with(|| Box::new(init)).as_mut(),
    }
}

/// What the hook provides to a node.
pub fn node_res(node: usize) -> Res {
    Res(0x40de00 + node as u64)
}

fn node_switched() {
    let e = eng();
    let Some(f) = e.node_hook else { return };
    let node = e.tasks[e.cur].node;
    if node != e.hook_node {
        e.hook_node = node;
        let was = std::mem::replace(&mut e.in_task, false);
        e.in_hook = true;
        f(node);
        let e = eng();
        e.in_hook = false;
        e.in_task = was;
    }
}

pub fn runtime_id() -> usize {
    if !in_task() {
        return 0;
    }
    let e = eng();
    e.tasks[e.cur].runtime
}

pub fn set_runtime_id(id: usize) {
    let e = eng();
    let cur = e.cur;
    e.tasks[cur].runtime = id;
}

pub fn set_task_name(name: &str) {
    let e = eng();
    let cur = e.cur;
    e.tasks[cur].name = name.to_string();
}

const STACK: usize = 256 * 1024;
const NSTACK: usize = 16384;

/// A piece of one big mapping (a mapping per stack makes forks slow).
pub(crate) struct ArenaStack {
    low: usize,
}

unsafe impl Stack for ArenaStack {
    fn base(&self) -> StackPointer {
        StackPointer::new(self.low + STACK).unwrap()
    }
    fn limit(&self) -> StackPointer {
        StackPointer::new(self.low).unwrap()
    }
}

fn new_stack() -> ArenaStack {
    static mut ARENA: usize = 0;
    static mut USED: usize = 0;
    unsafe {
        if ARENA == 0 {
            let p = libc::mmap(
                std::ptr::null_mut(),
                STACK * NSTACK,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            libc::madvise(p, STACK * NSTACK, libc::MADV_NOHUGEPAGE);
            ARENA = p as usize;
        }
        if USED >= NSTACK {
            violation("livelock", "too many tasks at once");
        }
        let low = ARENA + USED * STACK;
        USED += 1;
        ArenaStack { low }
    }
}

/// Creates a task that runs `body`; it becomes ready at the back of the run queue.
pub fn spawn(body: Body) -> TaskId {
    let e = eng();
    let id = e.tasks.len();

    let (canon, node, runtime) = if e.in_task {
        let cur = e.cur;
        let p = &mut e.tasks[cur];
        p.nspawn += 1;
        (mix(mix(p.canon, p.nspawn), 77), p.node, p.runtime)
    } else {
        (1, 0, 0)
    };

    let stack = e.stacks.pop().unwrap_or_else(new_stack);

    let low = stack.low;
    let co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
        {
            let e = eng();
            let cur = e.cur;
            e.tasks[cur].yielder = y as *const _;
        }
        body();
    });

    let hist = if e.in_task { mix(canon, e.tasks[e.cur].hist) } else { canon };

    e.tasks.push(Task {
        co: Some(co),
        low,
        yielder: std::ptr::null(),
        st: St::Ready,
        notified: false,
        canon,
        hist,
        nspawn: 0,
        nres: 0,
        nrand: 0,
        node,
        runtime,
        locals: HashMap::new(),
        name: String::new(),
        quiet: 0,
    });
    e.ready.push_back(id);
    id
}

/// Suspends the current coroutine and returns to the scheduler loop.
fn switch_out() {
    let e = eng();
    // Deep in the lower half of the own stack: end before a neighbour is damaged.
    let here = &e as *const _ as usize;
    if here - e.tasks[e.cur].low < 16 * 1024 {
        shm::finish(shm::CRASH, "stack\x1fstack of a task exhausted");
    }
    let y = e.tasks[e.cur].yielder;
    e.in_task = false;
    unsafe { (*y).suspend(()) };
}

/// Blocks the current task until it is woken by a waker.
/// When it was woken already since the last park, it goes to the back of the run queue.
pub fn park() {
    let e = eng();
    let cur = e.cur;
    let t = &mut e.tasks[cur];
    if t.notified {
        t.notified = false;
        t.st = St::Ready;
        e.ready.push_back(cur);
    } else {
        t.st = St::Parked;
    }
    switch_out();
}

/// Makes a parked task ready.
pub fn wake(id: TaskId) {
    let e = eng();
    let Some(t) = e.tasks.get_mut(id) else { return };
    match t.st {
        St::Parked => {
            t.st = St::Ready;
            e.ready.push_back(id);
        }
        St::Running | St::Blocked | St::Settle => {
            t.notified = true;
        }
        St::Ready => {
            // Either queued because it was woken (nothing to do), or preempted inside of a poll
            // (must run again afterwards).
            t.notified = true;
        }
        St::Done => {}
    }
}

static VTABLE: RawWakerVTable = RawWakerVTable::new(
    |p| RawWaker::new(p, &VTABLE),
    |p| wake(p as usize - 1),
    |p| wake(p as usize - 1),
    |_| (),
);

pub fn waker_for(id: TaskId) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new((id + 1) as *const (), &VTABLE)) }
}

/// Called by a task when it starts to poll: a wake-up up to here is consumed by this poll.
pub fn poll_begin() {
    let e = eng();
    let cur = e.cur;
    e.tasks[cur].notified = false;
}

/// Runs a future to completion on the current coroutine.
pub fn block_on<F: std::future::Future>(fut: F) -> F::Output {
    let mut fut = Box::pin(fut);
    let w = waker_for(current());
    let mut cx = std::task::Context::from_waker(&w);
    loop {
        poll_begin();
        match fut.as_mut().poll(&mut cx) {
            std::task::Poll::Ready(v) => return v,
            std::task::Poll::Pending => park(),
        }
    }
}

/// Waits until nothing else can run without time passing.
pub fn settle() {
    let e = eng();
    let cur = e.cur;
    e.tasks[cur].st = St::Settle;
    e.settle.push_back(cur);
    switch_out();
    eng().tasks[cur].notified = true;
}

/// Waits until all other tasks are idle, letting at most `ns` of virtual time pass.
pub fn settle_for(ns: u64) {
    settle();
    sleep_blocking(ns);
    settle();
}

pub fn sleep_blocking(ns: u64) {
    let e = eng();
    let deadline = e.now.saturating_add(ns);
    let id = timer_add(deadline, waker_for(e.cur));
    loop {
        poll_begin();
        if now() >= deadline {
            break;
        }
        park();
    }
    timer_cancel(id);
    let e = eng();
    let cur = e.cur;
    e.tasks[cur].notified = true;
}

/// Runs `f` without scheduling choices inside (its accesses are still tracked).
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let cur = current();
    eng().tasks[cur].quiet += 1;
    let r = f();
    eng().tasks[cur].quiet -= 1;
    r
}

/// Per task storage (the equivalent of a thread local for task locals).
pub fn task_slot(key: usize) -> Rc<RefCell<Option<Box<dyn Any>>>> {
    let e = eng();
    let cur = e.cur;
    e.tasks[cur]
        .locals
        .entry(key)
        .or_insert_with(|| Rc::new(RefCell::new(None)))
        .clone()
}

// ------------------------------------------------------------------------------------------------
// Resources

pub fn new_res() -> Res {
    if !in_task() {
        return Res(mix(0xABCD, unsafe {
            static mut N: u64 = 0;
            N += 1;
            N
        }));
    }
    let e = eng();
    let cur = e.cur;
    let t = &mut e.tasks[cur];
    t.nres += 1;
    Res(mix(mix(t.canon, t.nres), 0x5E5))
}

/// The resource at a heap address, named by the task that touches it first.
pub(crate) fn addr_res(p: usize) -> Res {
    if let Some(r) = eng().addrs.get(&p) {
        return *r;
    }
    let r = new_res();
    eng().addrs.insert(p, r);
    r
}

/// Records an access for the state fingerprint; no scheduling choice.
pub fn access(res: Res, acc: Acc) {
    if !in_task() {
        return;
    }
    let e = eng();
    let cur = e.cur;
    let cur_w = e.res.get(&res).copied().unwrap_or(0);
    let t = &mut e.tasks[cur];
    t.hist = mix(mix(t.hist, res.0), mix(cur_w, acc as u64));
    if acc == Acc::Write {
        let h = t.hist;
        e.res.insert(res, h);
        if cur_w != 0 {
            e.res_sum = e.res_sum.wrapping_sub(mix(res.0, cur_w));
        }
        e.res_sum = e.res_sum.wrapping_add(mix(res.0, h));
    }
}

/// Mixes an observed value into the history of the current task.
pub fn observe(v: u64) {
    if !in_task() {
        return;
    }
    let e = eng();
    let cur = e.cur;
    let t = &mut e.tasks[cur];
    t.hist = mix(t.hist, v ^ 0x0B5E);
}

/// A scheduling point in front of an operation on `res`.
pub fn point(res: Res, acc: Acc) {
    point_named(res, acc, "");
}

pub fn point_named(res: Res, acc: Acc, what: &str) {
    if !in_task() {
        return;
    }
    yield_choice(what, res);
    access(res, acc);
}

/// Blocks the current task until `unblock(res)` is called.
pub fn block(res: Res) {
    let e = eng();
    let cur = e.cur;
    e.tasks[cur].st = St::Blocked;
    e.blocked.push((res, cur));
    if e.verbose {
        trace_line(&format!("blocked on {:x}", res.0 & 0xffff));
    }
    switch_out();
}

/// Makes all tasks blocked on `res` ready.
pub fn unblock(res: Res) {
    if !active() {
        return;
    }
    let e = eng();
    if e.blocked.is_empty() {
        return;
    }
    let mut i = 0;
    while i < e.blocked.len() {
        if e.blocked[i].0 == res {
            let (_, id) = e.blocked.remove(i);
            e.tasks[id].st = St::Ready;
            e.ready.push_back(id);
        } else {
            i += 1;
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Time

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
const EPOCH: u64 = 1_000_000 * SEC;

/// The virtual clock in nanoseconds.
pub fn now() -> u64 {
    let e = eng();
    if e.in_task {
        let n = e.now;
        observe(n);
        return n;
    }
    e.now
}

pub fn timer_add(deadline: u64, waker: Waker) -> (u64, u64) {
    let e = eng();
    e.timer_seq += 1;
    let id = (deadline, e.timer_seq);
    let owner = if e.in_task { mix(e.tasks[e.cur].canon, e.tasks[e.cur].hist) } else { 0 };
    e.timers.insert(id, Timer { waker, owner });
    id
}

pub fn timer_update(id: (u64, u64), waker: &Waker) {
    if let Some(t) = eng().timers.get_mut(&id) {
        if !t.waker.will_wake(waker) {
            t.waker = waker.clone();
        }
    }
}

pub fn timer_cancel(id: (u64, u64)) {
    if active() {
        eng().timers.remove(&id);
    }
}

/// Advances the clock to the next deadline and fires what is due.
fn fire_next() -> bool {
    let e = eng();
    let Some((&(deadline, _), _)) = e.timers.iter().next() else {
        return false;
    };
    if deadline > e.now {
        e.now = deadline;
    }
    if e.verbose {
        trace_line(&format!("clock -> {} ms", (e.now - EPOCH) / MS));
    }
    loop {
        let e = eng();
        let Some((&k, _)) = e.timers.iter().next() else { break };
        if k.0 > e.now {
            break;
        }
        let t = e.timers.remove(&k).unwrap();
        t.waker.wake();
    }
    true
}

// ------------------------------------------------------------------------------------------------
// Choices

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Cost {
    /// Costs one deviation for every alternative except 0
    Deviation = 1,
    /// Free: the full range is always enumerated
    Data = 0,
}

/// Restores a task to its previous place (used for alternatives).
fn timer_alt_available() -> bool {
    let e = eng();
    e.cfg.timer_dev
        && e.timers
            .keys()
            .next()
            .map(|k| k.0.saturating_sub(e.explore_start) <= e.cfg.timer_dev_horizon)
            .unwrap_or(false)
}

fn step() {
    let e = eng();
    e.steps += 1;
    if e.steps > e.cfg.max_steps {
        violation("livelock", "step limit reached: the system never becomes quiet");
    }
}

fn yield_choice(what: &str, res: Res) {
    step();
    let e = eng();
    if e.verbose {
        trace_line(&format!("{} {:x}", what, res.0 & 0xffff));
    }
    if !e.exploring || e.setup || e.cfg.no_sched || e.cfg.no_preempt {
        return;
    }
    let cur = e.cur;
    if e.tasks[cur].quiet > 0 || std::thread::panicking() {
        return;
    }
    let nr = e.ready.len();
    let nl = e.low.len();
    let demote = usize::from(nr + nl > 0);
    let timer = usize::from(timer_alt_available());
    let n = 1 + nr + nl + demote + timer;
    if n == 1 {
        return;
    }
    let c = decide(n, Cost::Deviation, mix(0x501, res.0));
    if c == 0 {
        return;
    }
    let e = eng();
    if c <= nr {
        let t = e.ready.remove(c - 1).unwrap();
        e.tasks[cur].st = St::Ready;
        e.ready.push_front(cur);
        e.ready.push_front(t);
    } else if c <= nr + nl {
        let t = e.low.remove(c - 1 - nr).unwrap();
        e.tasks[cur].st = St::Ready;
        e.ready.push_front(cur);
        e.ready.push_front(t);
    } else if c <= nr + nl + demote {
        e.tasks[cur].st = St::Ready;
        e.low.push_back(cur);
    } else {
        fire_next();
        let e = eng();
        if e.ready.len() == nr {
            return;
        }
        let t = e.ready.remove(nr).unwrap();
        e.tasks[cur].st = St::Ready;
        e.ready.push_front(cur);
        e.ready.push_front(t);
    }
    switch_forced();
}

/// Switches to the front of the ready queue without another choice.
fn switch_forced() {
    unsafe { FORCED = true };
    switch_out();
}

static mut FORCED: bool = false;

/// Called by the scheduler loop: which task runs next?
fn pick() -> Option<TaskId> {
    loop {
        step();
        let e = eng();
        if unsafe { FORCED } {
            unsafe { FORCED = false };
            if let Some(t) = e.ready.pop_front() {
                return Some(t);
            }
            return e.low.pop_front();
        }
        let nr = e.ready.len();
        let nl = e.low.len();
        if nr + nl > 0 {
            let timer = usize::from(timer_alt_available());
            let n = nr + nl + timer;
            let c = if e.exploring && !e.setup && !e.cfg.no_sched && n > 1 {
                decide(n, Cost::Deviation, 0x71C)
            } else {
                0
            };
            let e = eng();
            if c < nr {
                return e.ready.remove(c);
            } else if c < nr + nl {
                return e.low.remove(c - nr);
            } else {
                fire_next();
                let e = eng();
                if e.ready.len() > nr {
                    return e.ready.remove(nr);
                }
                continue;
            }
        }
        if let Some(t) = e.settle.pop_front() {
            return Some(t);
        }
        if fire_next() {
            continue;
        }
        return None;
    }
}

fn fingerprint() -> u64 {
    let e = eng();
    let mut sum = e.res_sum;
    for t in &e.tasks {
        if t.st == St::Done {
            continue;
        }
        sum = sum.wrapping_add(mix(
            mix(t.canon, t.hist),
            (t.st as u64) << 1 | t.notified as u64,
        ));
    }
    let mut q = 0x11;
    for &t in &e.ready {
        q = mix(q, e.tasks[t].canon);
    }
    q = mix(q, 0x12);
    for &t in &e.low {
        q = mix(q, e.tasks[t].canon);
    }
    q = mix(q, 0x13);
    for &t in &e.settle {
        q = mix(q, e.tasks[t].canon);
    }
    q = mix(q, 0x14);
    for &(r, t) in &e.blocked {
        q = mix(mix(q, e.tasks[t].canon), r.0);
    }
    q = mix(q, e.now);
    for (k, t) in &e.timers {
        q = mix(mix(q, k.0), t.owner);
    }
    q = mix(q, if e.in_task { e.tasks[e.cur].canon } else { 0 });
    mix(sum, mix(q, e.outcome))
}

/// Resolves a choice among `n` alternatives.
fn decide(n: usize, cost: Cost, site: u64) -> usize {
    let e = eng();
    if !e.exploring || n < 2 {
        return 0;
    }
    assert!(n < 256, "mc: too many alternatives");
    let ctx = if e.in_task {
        mix(e.tasks[e.cur].canon, e.tasks[e.cur].hist)
    } else {
        e.res_sum
    };
    let site = mix(mix(site, ctx), n as u64 * 2 + cost as u64) as u32;
    let sh = shm::slot();
    let pos = sh.ntrace as usize;
    let c;
    if pos < sh.nprefix as usize {
        let p = sh.prefix[pos];
        if p.n as usize != n || (p.site != 0 && p.site != site) {
            shm::finish(shm::DIVERGED, &format!("replay diverged at choice {}", pos));
        }
        c = p.c as usize;
    } else {
        if sh.prune != 0 && !shm::seen_insert(fingerprint() | 1) {
            shm::finish(shm::PRUNED, "");
        }
        c = 0;
    }
    if pos >= shm::MAXT {
        violation("livelock", "too many choices in one execution");
    }
    sh.trace[pos] = shm::Entry {
        c: c as u8,
        n: n as u8,
        cost: cost as u8,
        pad: 0,
        site: site.max(1),
    };
    sh.ntrace += 1;
    if e.verbose && (n > 1) {
        trace_line(&format!("-- choice {} of {} ({:?}) #{}", c, n, cost, pos));
    }
    if cost == Cost::Data && e.in_task {
        observe(c as u64);
    }
    c
}

/// A nondeterministic value in `0..n`, all enumerated.
pub fn choose(n: usize) -> usize {
    step();
    decide(n, Cost::Data, 0xDA7A)
}

/// An environment answer: 0 is the default, everything else costs one deviation.
pub fn fault(n: usize) -> usize {
    step();
    let c = decide(n, Cost::Deviation, 0xFA17);
    observe(c as u64 + 1);
    c
}

pub fn net_chunks() -> bool {
    in_task() && eng().cfg.net_chunks
}

/// Deterministic "random" bits (hash seeds and the like): the same for the same task history.
pub(crate) fn random_u64() -> u64 {
    if !in_task() {
        return 0x1234_5678_9ABC_DEF0;
    }
    let e = eng();
    let cur = e.cur;
    let t = &mut e.tasks[cur];
    t.nrand += 1;
    mix(mix(t.canon, t.nrand), 0x4A4D)
}

// ------------------------------------------------------------------------------------------------
// Results

/// Ends this execution with a violation. `key` identifies what fails.
pub fn violation(key: &str, msg: &str) -> ! {
    if !active() {
        panic!("violation outside of the engine: {} {}", key, msg);
    }
    let e = eng();
    let panics = if e.panics.is_empty() {
        String::new()
    } else {
        format!(" [panics seen: {}]", e.panics.join(" | "))
    };
    shm::finish(shm::VIOLATION, &format!("{}\x1f{}{}", key, msg, panics));
}

/// Adds to the outcome of this execution (for counting distinct outcomes).
pub fn outcome<T: std::fmt::Debug>(v: T) {
    let s = format!("{:?}", v);
    note(|| format!("outcome {}", s));
    let e = eng();
    e.outcome = mix(e.outcome, hash_str(&s));
}

/// Adds a line to the trace of a replay.
pub fn note(f: impl FnOnce() -> String) {
    if active() && eng().verbose {
        trace_line(&f());
    }
}

fn trace_line(s: &str) {
    let e = eng();
    if e.in_task {
        let t = &e.tasks[e.cur];
        eprintln!("[{:>3} n{} {}] {}", e.cur, t.node, t.name, s);
    } else {
        eprintln!("[sched] {}", s);
    }
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $key:expr, $($arg:tt)*) => {
        if !$cond {
            $crate::violation($key, &format!($($arg)*));
        }
    };
}

/// Panic messages recorded so far in this execution.
pub fn panics() -> Vec<String> {
    eng().panics.clone()
}

pub fn clear_panics() {
    eng().panics.clear();
}

/// A harness-side cell shared between tasks; every use is visible to the state fingerprint.
pub struct Shared<T> {
    inner: std::rc::Rc<(RefCell<T>, Res)>,
}

unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}

impl<T> Clone for Shared<T> {
    fn clone(&self) -> Self {
        Shared { inner: self.inner.clone() }
    }
}

impl<T> Shared<T> {
    pub fn new(v: T) -> Self {
        Shared { inner: std::rc::Rc::new((RefCell::new(v), new_res())) }
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        access(self.inner.1, Acc::Write);
        f(&mut self.inner.0.borrow_mut())
    }
    pub fn get(&self) -> T
    where
        T: Clone,
    {
        access(self.inner.1, Acc::Read);
        self.inner.0.borrow().clone()
    }
    pub fn set(&self, v: T) {
        self.with(|x| *x = v)
    }
}

impl<T> Shared<Vec<T>> {
    pub fn push(&self, v: T) {
        self.with(|x| x.push(v))
    }
}

// ------------------------------------------------------------------------------------------------
// The scheduler loop

/// Runs `main` as the first task until it returns. Never returns; ends the process.
pub(crate) fn run_engine(cfg: Config, verbose: bool, main: Body) -> ! {
    let stacks = Vec::with_capacity(64);
    unsafe {
        ENGINE = Some(Box::new(Engine {
            tasks: Vec::with_capacity(64),
            cur: 0,
            in_task: false,
            node_hook: None,
            hook_node: 0,
            in_hook: false,
            statics: HashMap::new(),
            hook_statics: Vec::new(),
            ready: VecDeque::with_capacity(64),
            low: VecDeque::with_capacity(16),
            settle: VecDeque::with_capacity(16),
            blocked: Vec::with_capacity(16),
            now: EPOCH,
            timers: BTreeMap::new(),
            timer_seq: 0,
            res: HashMap::with_capacity(256),
            res_sum: 0,
            exploring: false,
            setup: false,
            steps: 0,
            cfg,
            stacks,
            main_done: false,
            outcome: 0,
            verbose,
            explore_start: EPOCH,
            panics: Vec::new(),
            addrs: HashMap::with_capacity(64),
        }));
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<panic>".to_string());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line()))
            .unwrap_or_default();
        if active() {
            let e = eng();
            if e.verbose {
                trace_line(&format!("panic: {} at {}", msg, loc));
            }
            e.panics.push(format!("{} at {}", msg, loc));
        } else {
            eprintln!("panic: {} at {}", msg, loc);
        }
    }));

    spawn(Box::new(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(main));
        if r.is_err() {
            violation("scenario-panic", "the driving task panicked");
        }
        eng().main_done = true;
    }));

    loop {
        let Some(id) = pick() else {
            let e = eng();
            let mut blocked = Vec::new();
            for (i, t) in e.tasks.iter().enumerate() {
                if t.st == St::Blocked || i == 0 {
                    blocked.push(format!("{}:{}:{:?}", i, t.name, t.st));
                }
            }
            violation("deadlock", &format!("nothing can run any more ({})", blocked.join(", ")));
        };
        let e = eng();
        e.cur = id;
        node_switched();
        let e = eng();
        e.in_task = true;
        e.tasks[id].st = St::Running;
        let mut co = e.tasks[id].co.take().expect("coroutine");
        let r = co.resume(());
        let e = eng();
        e.in_task = false;
        match r {
            CoroutineResult::Yield(()) => {
                e.tasks[id].co = Some(co);
            }
            CoroutineResult::Return(()) => {
                e.tasks[id].st = St::Done;
                e.tasks[id].locals.clear();
                e.stacks.push(co.into_stack());
            }
        }
        if e.main_done {
            shm::slot().outcome = e.outcome;
            shm::finish(shm::OK, "");
        }
    }
}

/// Ends the setup phase: from here on choices are explored.
pub fn explore() {
    let e = eng();
    assert!(e.in_task && e.cur == 0, "explore() belongs to the driving task");
    explore::serve();
    let e = eng();
    e.exploring = true;
    e.explore_start = e.now;
    e.steps = 0;
}

/// Stops exploring scheduling choices (data choices too): the rest runs with the default schedule.
pub fn explore_end() {
    eng().exploring = false;
}

/// Runs a part of the setup that depends on choices with the default schedule, unexplored.
/// Data choices are explored nevertheless.
pub fn setup_begin() {
    eng().setup = true;
}

pub fn setup_end() {
    eng().setup = false;
}

pub(crate) fn total_steps() -> u64 {
    eng().steps
}

/// Number of tasks that have not finished.
pub fn live_tasks() -> usize {
    eng().tasks.iter().filter(|t| t.st != St::Done).count()
}

/// The branch a `select!` starts with (the runtime picks it at random).
pub fn select_start(n: usize) -> usize {
    if !in_task() || n < 2 {
        return 0;
    }
    let e = eng();
    if !e.exploring || e.setup || e.cfg.no_sched {
        return 0;
    }
    let c = decide(n, Cost::Deviation, 0x5E1);
    observe(c as u64 + 100);
    c
}

// ------------------------------------------------------------------------------------------------
// Locks for the shims: acquisition is a scheduling point, the critical section is atomic.

mod lock {
    use super::*;
    use std::cell::{Cell, UnsafeCell};
    use std::ops::{Deref, DerefMut};

    pub struct Lock<T: ?Sized> {
        held: Cell<bool>,
        res: Cell<u64>,
        v: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for Lock<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Lock<T> {}

    pub struct LockGuard<'a, T: ?Sized>(&'a Lock<T>, usize);

    impl<T> Lock<T> {
        pub fn new(v: T) -> Self {
            Lock { held: Cell::new(false), res: Cell::new(new_res().0), v: UnsafeCell::new(v) }
        }
        pub fn into_inner(self) -> T {
            self.v.into_inner()
        }
    }

    impl<T: ?Sized> Lock<T> {
        pub fn lock(&self) -> Result<LockGuard<'_, T>, std::convert::Infallible> {
            let res = Res(self.res.get());
            point_named(res, Acc::Write, "chan");
            while self.held.get() {
                block(res);
                access(res, Acc::Write);
            }
            self.held.set(true);
            let mut owner = usize::MAX;
            if in_task() {
                let e = eng();
                owner = e.cur;
                e.tasks[owner].quiet += 1;
            }
            Ok(LockGuard(self, owner))
        }
    }

    impl<T: ?Sized> Drop for LockGuard<'_, T> {
        fn drop(&mut self) {
            if self.1 != usize::MAX {
                eng().tasks[self.1].quiet -= 1;
            }
            self.0.held.set(false);
            unblock(Res(self.0.res.get()));
        }
    }
    impl<T: ?Sized> Deref for LockGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> DerefMut for LockGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.v.get() }
        }
    }

    pub struct SpinLock<T: ?Sized>(Lock<T>);
    impl<T> SpinLock<T> {
        pub fn new(v: T) -> Self {
            SpinLock(Lock::new(v))
        }
    }
    impl<T: Default> Default for SpinLock<T> {
        fn default() -> Self {
            SpinLock::new(T::default())
        }
    }
    impl<T: Default> Default for Lock<T> {
        fn default() -> Self {
            Lock::new(T::default())
        }
    }
    impl<T: ?Sized> SpinLock<T> {
        pub fn lock(&self) -> LockGuard<'_, T> {
            match self.0.lock() {
                Ok(g) => g,
                Err(e) => match e {},
            }
        }
    }
}

pub use lock::{Lock, LockGuard, SpinLock};
