//! Tasks as coroutines of the model checker.

use std::any::Any;
use std::cell::UnsafeCell;
use std::fmt;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

pub use crate::task_local::{AccessError, LocalKey, TaskLocalFuture};

pub mod futures {
    pub use crate::task_local::TaskLocalFuture;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Id(u64);

impl fmt::Display for Id {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

pub fn id() -> Id {
    Id(mc::current() as u64)
}

pub fn try_id() -> Option<Id> {
    mc::in_task().then(id)
}

enum Repr {
    Cancelled,
    Panic(Box<dyn Any + Send + 'static>),
}

pub struct JoinError {
    repr: Repr,
    id: Id,
}

unsafe impl Sync for JoinError {}

impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        matches!(self.repr, Repr::Cancelled)
    }
    pub fn is_panic(&self) -> bool {
        matches!(self.repr, Repr::Panic(_))
    }
    pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
        self.try_into_panic().expect("`JoinError` reason is not a panic.")
    }
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send + 'static>, JoinError> {
        match self.repr {
            Repr::Panic(p) => Ok(p),
            _ => Err(self),
        }
    }
    pub fn id(&self) -> Id {
        self.id
    }
}

impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.repr {
            Repr::Cancelled => write!(f, "task {} was cancelled", self.id),
            Repr::Panic(_) => write!(f, "task {} panicked", self.id),
        }
    }
}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.repr {
            Repr::Cancelled => write!(f, "JoinError::Cancelled({:?})", self.id),
            Repr::Panic(_) => write!(f, "JoinError::Panic({:?}, ...)", self.id),
        }
    }
}
impl std::error::Error for JoinError {}

struct Ctl {
    cancelled: bool,
    done: bool,
    started_blocking: bool,
    join_waker: Option<Waker>,
    /// Anybody waiting for the end (runtime shutdown).
    end_wakers: Vec<Waker>,
}

pub(crate) struct Head {
    res: mc::Res,
    task: UnsafeCell<usize>,
    ctl: UnsafeCell<Ctl>,
}

struct Inner<T> {
    head: Arc<Head>,
    output: UnsafeCell<Option<Result<T, JoinError>>>,
}

unsafe impl Send for Head {}
unsafe impl Sync for Head {}
unsafe impl<T> Send for Inner<T> {}
unsafe impl<T> Sync for Inner<T> {}

impl Head {
    fn ctl(&self) -> &mut Ctl {
        unsafe { &mut *self.ctl.get() }
    }
    fn task(&self) -> usize {
        unsafe { *self.task.get() }
    }
    fn abort(&self) {
        mc::point_named(self.res, mc::Acc::Write, "abort");
        self.abort_now();
    }
    pub(crate) fn abort_now(&self) {
        let c = self.ctl();
        if !c.done && !c.started_blocking {
            c.cancelled = true;
            mc::wake(self.task());
        }
    }
    pub(crate) fn done(&self) -> bool {
        self.ctl().done
    }
    pub(crate) fn on_end(&self, w: Waker) {
        self.ctl().end_wakers.push(w)
    }
}

pub struct JoinHandle<T> {
    inner: Arc<Inner<T>>,
}

unsafe impl<T: Send> Send for JoinHandle<T> {}
unsafe impl<T: Send> Sync for JoinHandle<T> {}
impl<T> Unpin for JoinHandle<T> {}
impl<T> std::panic::UnwindSafe for JoinHandle<T> {}
impl<T> std::panic::RefUnwindSafe for JoinHandle<T> {}

impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        self.inner.head.abort()
    }
    pub fn is_finished(&self) -> bool {
        mc::point_named(self.inner.head.res, mc::Acc::Read, "is_finished");
        self.inner.head.ctl().done
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle { head: self.inner.head.clone() }
    }
    pub fn id(&self) -> Id {
        Id(self.inner.head.task() as u64)
    }
}

impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        mc::point_named(self.inner.head.res, mc::Acc::Write, "join");
        let c = self.inner.head.ctl();
        if c.done {
            let out = unsafe { (*self.inner.output.get()).take() };
            return Poll::Ready(out.expect("JoinHandle polled after completion"));
        }
        c.join_waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("JoinHandle").finish()
    }
}

#[derive(Clone)]
pub struct AbortHandle {
    head: Arc<Head>,
}

impl AbortHandle {
    pub fn abort(&self) {
        self.head.abort()
    }
    pub fn is_finished(&self) -> bool {
        mc::point_named(self.head.res, mc::Acc::Read, "is_finished");
        self.head.ctl().done
    }
    pub fn id(&self) -> Id {
        Id(self.head.task() as u64)
    }
}

impl fmt::Debug for AbortHandle {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("AbortHandle").finish()
    }
}

fn new_inner<T>() -> Arc<Inner<T>> {
    Arc::new(Inner {
        head: Arc::new(Head {
            res: mc::new_res(),
            task: UnsafeCell::new(usize::MAX),
            ctl: UnsafeCell::new(Ctl {
                cancelled: false,
                done: false,
                started_blocking: false,
                join_waker: None,
                end_wakers: Vec::new(),
            }),
        }),
        output: UnsafeCell::new(None),
    })
}

fn complete<T>(inner: &Arc<Inner<T>>, out: Result<T, JoinError>) {
    mc::point_named(inner.head.res, mc::Acc::Write, "task complete");
    unsafe { *inner.output.get() = Some(out) };
    let c = inner.head.ctl();
    c.done = true;
    if let Some(w) = c.join_waker.take() {
        w.wake();
    }
    for w in c.end_wakers.drain(..) {
        w.wake();
    }
}

fn drive<F: Future>(future: F, inner: Arc<Inner<F::Output>>) {
    // The future lives on the heap like in tokio and is dropped before the result is published.
    let mut fut: Pin<Box<F>> = Box::pin(future);
    let waker = mc::waker_for(mc::current());
    let id = Id(mc::current() as u64);
    loop {
        mc::poll_begin();
        mc::access(inner.head.res, mc::Acc::Read);
        if inner.head.ctl().cancelled {
            let r = catch_unwind(AssertUnwindSafe(move || drop(fut)));
            let repr = match r {
                Ok(()) => Repr::Cancelled,
                Err(p) => Repr::Panic(p),
            };
            complete(&inner, Err(JoinError { repr, id }));
            return;
        }
        let mut cx = Context::from_waker(&waker);
        let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
        match r {
            Ok(Poll::Pending) => {
                mc::access(inner.head.res, mc::Acc::Read);
                if inner.head.ctl().cancelled {
                    continue;
                }
                mc::park();
            }
            Ok(Poll::Ready(v)) => {
                let _ = catch_unwind(AssertUnwindSafe(move || drop(fut)));
                complete(&inner, Ok(v));
                return;
            }
            Err(p) => {
                let _ = catch_unwind(AssertUnwindSafe(move || drop(fut)));
                complete(&inner, Err(JoinError { repr: Repr::Panic(p), id }));
                return;
            }
        }
    }
}

pub(crate) fn spawn_on<F>(future: F, runtime: usize) -> JoinHandle<F::Output>
where
    F: Future + 'static,
{
    let inner = new_inner::<F::Output>();
    let i2 = inner.clone();
    // The body is only run on this thread.
    struct Move<T>(T);
    unsafe impl<T> Send for Move<T> {}
    let m = Move(future);
    crate::runtime::register(runtime, inner.head.clone());
    let id = mc::spawn(Box::new(move || {
        let m = m;
        mc::set_runtime_id(runtime);
        drive(m.0, i2);
    }));
    unsafe { *inner.head.task.get() = id };
    JoinHandle { inner }
}

#[track_caller]
pub fn spawn<F>(future: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    if !mc::in_task() {
        panic!("there is no reactor running, must be called from the context of a Tokio 1.x runtime");
    }
    spawn_on(future, mc::runtime_id())
}

#[track_caller]
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    let runtime = mc::runtime_id();
    let inner = new_inner::<R>();
    let i2 = inner.clone();
    crate::runtime::register(runtime, inner.head.clone());
    let id = mc::spawn(Box::new(move || {
        mc::set_runtime_id(runtime);
        let id = Id(mc::current() as u64);
        mc::access(i2.head.res, mc::Acc::Write);
        if i2.head.ctl().cancelled {
            drop(f);
            complete(&i2, Err(JoinError { repr: Repr::Cancelled, id }));
            return;
        }
        i2.head.ctl().started_blocking = true;
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => complete(&i2, Ok(v)),
            Err(p) => complete(&i2, Err(JoinError { repr: Repr::Panic(p), id })),
        }
    }));
    unsafe { *inner.head.task.get() = id };
    JoinHandle { inner }
}

pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    f()
}

pub async fn yield_now() {
    struct YieldNow(bool);
    impl Future for YieldNow {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 {
                return Poll::Ready(());
            }
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
    YieldNow(false).await
}

pub async fn consume_budget() {}

pub mod coop {
    pub async fn consume_budget() {}
    pub fn unconstrained<F>(f: F) -> F {
        f
    }
}

pub fn unconstrained<F>(f: F) -> F {
    f
}

/// A small JoinSet.
pub struct JoinSet<T> {
    set: Vec<JoinHandle<T>>,
}

impl<T: 'static> JoinSet<T> {
    pub fn new() -> Self {
        JoinSet { set: Vec::new() }
    }
    pub fn len(&self) -> usize {
        self.set.len()
    }
    pub fn is_empty(&self) -> bool {
        self.set.is_empty()
    }
    pub fn spawn<F>(&mut self, task: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
        T: Send,
    {
        let h = spawn(task);
        let a = h.abort_handle();
        self.set.push(h);
        a
    }
    pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
        if self.set.is_empty() {
            return Poll::Ready(None);
        }
        for i in 0..self.set.len() {
            if let Poll::Ready(r) = Pin::new(&mut self.set[i]).poll(cx) {
                self.set.remove(i);
                return Poll::Ready(Some(r));
            }
        }
        Poll::Pending
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| self.poll_join_next(cx)).await
    }
    pub fn abort_all(&mut self) {
        for h in &self.set {
            h.abort();
        }
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
    pub async fn join_all(mut self) -> Vec<T> {
        let mut out = Vec::new();
        while let Some(r) = self.join_next().await {
            match r {
                Ok(v) => out.push(v),
                Err(e) if e.is_panic() => std::panic::resume_unwind(e.into_panic()),
                Err(e) => panic!("{}", e),
            }
        }
        out
    }
    pub fn detach_all(&mut self) {
        self.set.clear();
    }
}

impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        for h in &self.set {
            h.abort();
        }
    }
}

impl<T: 'static> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
