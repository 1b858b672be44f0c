//! Runtimes: a group of tasks that ends with the runtime.

use crate::task::{spawn_on, Head, JoinHandle};
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::future::Future;
use std::io;
use std::marker::PhantomData;
use std::sync::Arc;
use std::time::Duration;

struct Table(UnsafeCell<Option<HashMap<usize, Vec<Arc<Head>>>>>);
unsafe impl Sync for Table {}
static TABLE: Table = Table(UnsafeCell::new(None));
struct Next(UnsafeCell<usize>);
unsafe impl Sync for Next {}
static NEXT: Next = Next(UnsafeCell::new(1));

fn table() -> &'static mut HashMap<usize, Vec<Arc<Head>>> {
    unsafe { (*TABLE.0.get()).get_or_insert_with(HashMap::new) }
}

pub(crate) fn register(rt: usize, head: Arc<Head>) {
    if rt != 0 {
        let v = table().entry(rt).or_default();
        v.retain(|h| !h.done());
        v.push(head);
    }
}

#[derive(Debug)]
pub struct Builder {
    _p: (),
}

impl Builder {
    pub fn new_multi_thread() -> Builder {
        Builder { _p: () }
    }
    pub fn new_current_thread() -> Builder {
        Builder { _p: () }
    }
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    pub fn enable_io(&mut self) -> &mut Self {
        self
    }
    pub fn enable_time(&mut self) -> &mut Self {
        self
    }
    pub fn worker_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
        self
    }
    pub fn thread_stack_size(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn thread_keep_alive(&mut self, _: Duration) -> &mut Self {
        self
    }
    pub fn event_interval(&mut self, _: u32) -> &mut Self {
        self
    }
    pub fn global_queue_interval(&mut self, _: u32) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> io::Result<Runtime> {
        Runtime::new()
    }
}

#[derive(Debug)]
pub struct Runtime {
    id: usize,
    down: bool,
}

impl Runtime {
    pub fn new() -> io::Result<Runtime> {
        let id = unsafe {
            let n = NEXT.0.get();
            *n += 1;
            *n
        };
        Ok(Runtime { id, down: false })
    }
    pub fn handle(&self) -> Handle {
        Handle { id: self.id }
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        spawn_on(f, self.id)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        let old = mc::runtime_id();
        mc::set_runtime_id(self.id);
        let h = crate::task::spawn_blocking(f);
        mc::set_runtime_id(old);
        h
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        let old = mc::runtime_id();
        mc::set_runtime_id(self.id);
        let r = mc::block_on(f);
        mc::set_runtime_id(old);
        r
    }
    pub fn enter(&self) -> EnterGuard<'_> {
        let old = mc::runtime_id();
        mc::set_runtime_id(self.id);
        EnterGuard(old, PhantomData)
    }
    fn cancel_all(&mut self) -> Vec<Arc<Head>> {
        self.down = true;
        let heads = table().remove(&self.id).unwrap_or_default();
        for h in &heads {
            h.abort_now();
        }
        heads
    }
    fn shutdown(&mut self) {
        if self.down || !mc::in_task() {
            return;
        }
        loop {
            let heads = self.cancel_all();
            if heads.iter().all(|h| h.done()) {
                break;
            }
            let w = mc::waker_for(mc::current());
            for h in &heads {
                if !h.done() {
                    h.on_end(w.clone());
                }
            }
            mc::poll_begin();
            while !heads.iter().all(|h| h.done()) {
                mc::park();
                mc::poll_begin();
            }
        }
    }
    pub fn shutdown_timeout(mut self, _d: Duration) {
        self.shutdown();
    }
    pub fn shutdown_background(mut self) {
        self.cancel_all();
    }
}

impl Drop for Runtime {
    fn drop(&mut self) {
        self.shutdown();
    }
}

pub struct EnterGuard<'a>(usize, PhantomData<&'a ()>);

impl Drop for EnterGuard<'_> {
    fn drop(&mut self) {
        mc::set_runtime_id(self.0);
    }
}

#[derive(Debug, Clone)]
pub struct Handle {
    id: usize,
}

#[derive(Debug)]
pub struct TryCurrentError(());
impl std::fmt::Display for TryCurrentError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("no runtime")
    }
}
impl std::error::Error for TryCurrentError {}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[non_exhaustive]
pub enum RuntimeFlavor {
    CurrentThread,
    MultiThread,
}

impl Handle {
    pub fn current() -> Handle {
        Handle { id: mc::runtime_id() }
    }
    pub fn try_current() -> Result<Handle, TryCurrentError> {
        if mc::in_task() {
            Ok(Self::current())
        } else {
            Err(TryCurrentError(()))
        }
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        spawn_on(f, self.id)
    }
    #[track_caller]
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        let old = mc::runtime_id();
        mc::set_runtime_id(self.id);
        let h = crate::task::spawn_blocking(f);
        mc::set_runtime_id(old);
        h
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        mc::block_on(f)
    }
    pub fn enter(&self) -> EnterGuard<'_> {
        let old = mc::runtime_id();
        mc::set_runtime_id(self.id);
        EnterGuard(old, PhantomData)
    }
    pub fn runtime_flavor(&self) -> RuntimeFlavor {
        RuntimeFlavor::MultiThread
    }
    pub fn metrics(&self) -> RuntimeMetrics {
        RuntimeMetrics { _p: () }
    }
}

#[derive(Debug, Clone)]
pub struct RuntimeMetrics {
    _p: (),
}

impl RuntimeMetrics {
    pub fn num_workers(&self) -> usize {
        4
    }
    pub fn num_alive_tasks(&self) -> usize {
        mc::live_tasks()
    }
    pub fn global_queue_depth(&self) -> usize {
        0
    }
}
