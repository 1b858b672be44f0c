//! Scheduler aware stand-in for arc-swap: every operation is one atomic step behind a scheduling
//! point; a loaded guard keeps the value it loaded.

use std::cell::UnsafeCell;
use std::fmt;
use std::ops::Deref;
use std::sync::Arc;

pub trait RefCnt: Clone {
    fn addr(this: &Self) -> usize;
}

impl<T> RefCnt for Arc<T> {
    fn addr(this: &Self) -> usize {
        Arc::as_ptr(this) as usize
    }
}

impl<T> RefCnt for Option<Arc<T>> {
    fn addr(this: &Self) -> usize {
        this.as_ref().map(|a| Arc::as_ptr(a) as usize).unwrap_or(0)
    }
}

pub struct Guard<T: RefCnt>(T);

impl<T: RefCnt> Guard<T> {
    pub fn into_inner(lease: Self) -> T {
        lease.0
    }
    pub fn from_inner(inner: T) -> Self {
        Guard(inner)
    }
}

impl<T: RefCnt> Deref for Guard<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}

impl<T: RefCnt + fmt::Debug> fmt::Debug for Guard<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

impl<T: RefCnt> From<T> for Guard<T> {
    fn from(v: T) -> Self {
        Guard(v)
    }
}

pub trait AsAddr {
    fn as_addr(&self) -> usize;
}
impl<T> AsAddr for Arc<T> {
    fn as_addr(&self) -> usize {
        RefCnt::addr(self)
    }
}
impl<T> AsAddr for &Arc<T> {
    fn as_addr(&self) -> usize {
        RefCnt::addr(*self)
    }
}
impl<T: RefCnt> AsAddr for Guard<T> {
    fn as_addr(&self) -> usize {
        RefCnt::addr(&self.0)
    }
}
impl<T: RefCnt> AsAddr for &Guard<T> {
    fn as_addr(&self) -> usize {
        RefCnt::addr(&self.0)
    }
}
impl<T> AsAddr for Option<Arc<T>> {
    fn as_addr(&self) -> usize {
        RefCnt::addr(self)
    }
}
impl<T> AsAddr for &Option<Arc<T>> {
    fn as_addr(&self) -> usize {
        RefCnt::addr(*self)
    }
}
impl<T> AsAddr for *const T {
    fn as_addr(&self) -> usize {
        *self as usize
    }
}

pub struct ArcSwapAny<T: RefCnt> {
    v: UnsafeCell<T>,
    res: mc::Res,
}

pub type ArcSwap<T> = ArcSwapAny<Arc<T>>;
pub type ArcSwapOption<T> = ArcSwapAny<Option<Arc<T>>>;

unsafe impl<T: RefCnt + Send + Sync> Send for ArcSwapAny<T> {}
unsafe impl<T: RefCnt + Send + Sync> Sync for ArcSwapAny<T> {}

impl<T: RefCnt> ArcSwapAny<T> {
    pub fn new(v: T) -> Self {
        ArcSwapAny { v: UnsafeCell::new(v), res: mc::new_res() }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
    pub fn load_full(&self) -> T {
        mc::point_named(self.res, mc::Acc::Read, "arcswap load");
        unsafe { (*self.v.get()).clone() }
    }
    pub fn load(&self) -> Guard<T> {
        Guard(self.load_full())
    }
    pub fn store(&self, v: T) {
        drop(self.swap(v));
    }
    pub fn swap(&self, v: T) -> T {
        mc::point_named(self.res, mc::Acc::Write, "arcswap store");
        unsafe { std::mem::replace(&mut *self.v.get(), v) }
    }
    pub fn compare_and_swap<C: AsAddr>(&self, current: C, new: T) -> Guard<T> {
        mc::point_named(self.res, mc::Acc::Write, "arcswap cas");
        unsafe {
            let old = (*self.v.get()).clone();
            if RefCnt::addr(&old) == current.as_addr() {
                *self.v.get() = new;
            }
            Guard(old)
        }
    }
    pub fn rcu<R, F>(&self, mut f: F) -> T
    where
        F: FnMut(&T) -> R,
        R: Into<T>,
    {
        let mut cur = self.load_full();
        loop {
            let new = f(&cur).into();
            mc::point_named(self.res, mc::Acc::Write, "arcswap cas");
            unsafe {
                if RefCnt::addr(&*self.v.get()) == RefCnt::addr(&cur) {
                    return std::mem::replace(&mut *self.v.get(), new);
                }
                cur = (*self.v.get()).clone();
            }
        }
    }
}

impl<T> ArcSwapAny<Arc<T>> {
    pub fn from_pointee(v: T) -> Self {
        Self::new(Arc::new(v))
    }
}

impl<T> ArcSwapAny<Option<Arc<T>>> {
    pub fn from_pointee<V: Into<Option<T>>>(v: V) -> Self {
        Self::new(v.into().map(Arc::new))
    }
    pub fn empty() -> Self {
        Self::new(None)
    }
}

impl<T: RefCnt> From<T> for ArcSwapAny<T> {
    fn from(v: T) -> Self {
        Self::new(v)
    }
}

impl<T: Default> Default for ArcSwapAny<Arc<T>> {
    fn default() -> Self {
        Self::from_pointee(T::default())
    }
}

impl<T: RefCnt + fmt::Debug> fmt::Debug for ArcSwapAny<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple("ArcSwapAny").field(&self.load_full()).finish()
    }
}
