//! Scheduler aware replacement of the shard lock: same admission rules (a writer excludes everybody,
//! readers share, waiting writers do not hold back new readers), every acquisition is a scheduling
//! point, waiting is visible to the scheduler.

use core::cell::Cell;

pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;

pub struct RawRwLock {
    /// -1: one writer, n: n readers
    state: Cell<isize>,
}

unsafe impl Sync for RawRwLock {}
unsafe impl Send for RawRwLock {}

impl RawRwLock {
    #[inline]
    fn res(&self) -> mc::Res {
        mc::Res(self as *const _ as u64)
    }
}

unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = Self { state: Cell::new(0) };

    type GuardMarker = lock_api::GuardNoSend;

    #[inline(never)]
    fn try_lock_exclusive(&self) -> bool {
        mc::point_named(self.res(), mc::Acc::Write, "map try write");
        if self.state.get() == 0 {
            self.state.set(-1);
            true
        } else {
            false
        }
    }

    #[inline(never)]
    fn lock_exclusive(&self) {
        mc::point_named(self.res(), mc::Acc::Write, "map write");
        while self.state.get() != 0 {
            mc::block(self.res());
            mc::access(self.res(), mc::Acc::Write);
        }
        self.state.set(-1);
    }

    #[inline(never)]
    unsafe fn unlock_exclusive(&self) {
        self.state.set(0);
        mc::unblock(self.res());
    }

    #[inline(never)]
    fn try_lock_shared(&self) -> bool {
        mc::point_named(self.res(), mc::Acc::Read, "map try read");
        if self.state.get() >= 0 {
            self.state.set(self.state.get() + 1);
            true
        } else {
            false
        }
    }

    #[inline(never)]
    fn lock_shared(&self) {
        mc::point_named(self.res(), mc::Acc::Read, "map read");
        while self.state.get() < 0 {
            mc::block(self.res());
            mc::access(self.res(), mc::Acc::Read);
        }
        self.state.set(self.state.get() + 1);
    }

    #[inline(never)]
    unsafe fn unlock_shared(&self) {
        self.state.set(self.state.get() - 1);
        if self.state.get() == 0 {
            mc::unblock(self.res());
        }
    }
}

unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    #[inline(never)]
    unsafe fn downgrade(&self) {
        self.state.set(1);
        mc::unblock(self.res());
    }
}
