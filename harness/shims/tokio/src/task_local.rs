//! Task locals, stored per coroutine. Same drop order as tokio: the inner future is dropped inside
//! of the scope, the value afterwards.

use pin_project_lite::pin_project;
use std::any::Any;
use std::cell::RefCell;
use std::fmt;
use std::future::Future;
use std::marker::PhantomData;
use std::mem;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[macro_export]
macro_rules! task_local {
    () => {};
    ($(#[$attr:meta])* $vis:vis static $name:ident: $t:ty; $($rest:tt)*) => {
        $crate::__task_local_inner!($(#[$attr])* $vis $name, $t);
        $crate::task_local!($($rest)*);
    };
    ($(#[$attr:meta])* $vis:vis static $name:ident: $t:ty) => {
        $crate::__task_local_inner!($(#[$attr])* $vis $name, $t);
    }
}

#[doc(hidden)]
#[macro_export]
macro_rules! __task_local_inner {
    ($(#[$attr:meta])* $vis:vis $name:ident, $t:ty) => {
        $(#[$attr])*
        $vis static $name: $crate::task::LocalKey<$t> = {
            static __KEY: ::std::sync::atomic::AtomicU8 = ::std::sync::atomic::AtomicU8::new(0);
            $crate::task::LocalKey::__new(&__KEY)
        };
    };
}

pub struct LocalKey<T: 'static> {
    key: &'static std::sync::atomic::AtomicU8,
    _t: PhantomData<fn() -> T>,
}

#[derive(Clone, Copy, Eq, PartialEq)]
pub struct AccessError {
    _private: (),
}

impl fmt::Debug for AccessError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("AccessError").finish()
    }
}
impl fmt::Display for AccessError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt("task-local value not set", f)
    }
}
impl std::error::Error for AccessError {}

type Slot = Rc<RefCell<Option<Box<dyn Any>>>>;

impl<T: 'static> LocalKey<T> {
    #[doc(hidden)]
    pub const fn __new(key: &'static std::sync::atomic::AtomicU8) -> Self {
        LocalKey { key, _t: PhantomData }
    }

    fn slot(&'static self) -> Option<Slot> {
        if !mc::in_task() {
            return None;
        }
        Some(mc::task_slot(self.key as *const _ as usize))
    }

    pub fn scope<F>(&'static self, value: T, f: F) -> TaskLocalFuture<T, F>
    where
        F: Future,
    {
        TaskLocalFuture { local: self, slot: SyncBox(Some(Box::new(value))), future: Some(f) }
    }

    pub fn sync_scope<F, R>(&'static self, value: T, f: F) -> R
    where
        F: FnOnce() -> R,
    {
        let mut slot: Option<Box<dyn Any>> = Some(Box::new(value));
        scope_inner(self, &mut slot, f).expect("cannot enter a task-local scope here")
    }

    pub fn with<F, R>(&'static self, f: F) -> R
    where
        F: FnOnce(&T) -> R,
    {
        match self.try_with(f) {
            Ok(r) => r,
            Err(e) => panic!("cannot access a task-local storage value without setting it first: {:?}", e),
        }
    }

    pub fn try_with<F, R>(&'static self, f: F) -> Result<R, AccessError>
    where
        F: FnOnce(&T) -> R,
    {
        let Some(slot) = self.slot() else { return Err(AccessError { _private: () }) };
        let b = slot.borrow();
        match b.as_ref() {
            Some(v) => Ok(f(v.downcast_ref::<T>().unwrap())),
            None => Err(AccessError { _private: () }),
        }
    }
}

impl<T: Clone + 'static> LocalKey<T> {
    pub fn get(&'static self) -> T {
        self.with(|v| v.clone())
    }
    pub fn try_get(&'static self) -> Result<T, AccessError> {
        self.try_with(|v| v.clone())
    }
}

impl<T: 'static> fmt::Debug for LocalKey<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("LocalKey { .. }")
    }
}

fn scope_inner<T: 'static, F, R>(
    key: &'static LocalKey<T>,
    slot: &mut Option<Box<dyn Any>>,
    f: F,
) -> Result<R, ()>
where
    F: FnOnce() -> R,
{
    struct Guard<'a> {
        cell: Slot,
        slot: &'a mut Option<Box<dyn Any>>,
    }
    impl Drop for Guard<'_> {
        fn drop(&mut self) {
            mem::swap(self.slot, &mut *self.cell.borrow_mut());
        }
    }
    let cell = key.slot().ok_or(())?;
    {
        let mut b = cell.try_borrow_mut().map_err(|_| ())?;
        mem::swap(slot, &mut *b);
    }
    let guard = Guard { cell, slot };
    let r = f();
    drop(guard);
    Ok(r)
}

#[doc(hidden)]
pub struct SyncBox(Option<Box<dyn Any>>);
unsafe impl Send for SyncBox {}
unsafe impl Sync for SyncBox {}

pin_project! {
    pub struct TaskLocalFuture<T, F>
    where
        T: 'static,
    {
        local: &'static LocalKey<T>,
        slot: SyncBox,
        #[pin]
        future: Option<F>,
    }

    impl<T: 'static, F> PinnedDrop for TaskLocalFuture<T, F> {
        fn drop(this: Pin<&mut Self>) {
            let this = this.project();
            if mem::needs_drop::<F>() && this.future.is_some() {
                let mut future = this.future;
                let _ = scope_inner(this.local, &mut this.slot.0, || {
                    future.set(None);
                });
            }
        }
    }
}

impl<T: 'static, F> TaskLocalFuture<T, F> {
    pub fn take_value(self: Pin<&mut Self>) -> Option<T> {
        let this = self.project();
        this.slot.0.take().map(|b| *b.downcast::<T>().ok().unwrap())
    }
}

impl<T: 'static, F: Future> Future for TaskLocalFuture<T, F> {
    type Output = F::Output;

    #[track_caller]
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = self.project();
        let mut future_opt = this.future;
        let res = scope_inner(this.local, &mut this.slot.0, || match future_opt.as_mut().as_pin_mut() {
            Some(fut) => {
                let res = fut.poll(cx);
                if res.is_ready() {
                    future_opt.set(None);
                }
                Some(res)
            }
            None => None,
        });
        match res {
            Ok(Some(res)) => res,
            Ok(None) => panic!("`TaskLocalFuture` polled after completion"),
            Err(()) => panic!("cannot enter a task-local scope"),
        }
    }
}
