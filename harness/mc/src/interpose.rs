//! Replacements for the libc entry points through which std observes time, randomness and futexes,
//! and the callbacks of the compiler's atomics instrumentation (`-C passes=tsan`).

use crate::{active, eng, Acc, Res};

pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    r
}

/// Wall clock seconds that are not affected by the virtual clock.
pub fn real_now() -> f64 {
    unsafe {
        let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        raw_syscall(libc::SYS_clock_gettime, 1, &mut ts as *mut _ as i64, 0, 0, 0, 0);
        ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if active() {
        let n = crate::now();
        (*ts).tv_sec = (n / 1_000_000_000) as _;
        (*ts).tv_nsec = (n % 1_000_000_000) as _;
        if clk == libc::CLOCK_REALTIME {
            (*ts).tv_sec += 1_700_000_000;
        }
        return 0;
    }
    let r = raw_syscall(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0);
    if r < 0 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, _flags: u32) -> isize {
    let p = buf as *mut u8;
    let mut i = 0;
    while i < len {
        let r = crate::random_u64().to_le_bytes();
        for b in r {
            if i < len {
                *p.add(i) = b;
                i += 1;
            }
        }
    }
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut libc::c_void, len: usize) -> i32 {
    getrandom(buf, len, 0);
    0
}

unsafe fn sleep_ts(ts: *const libc::timespec) {
    let ns = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
    crate::sleep_blocking(ns);
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if crate::in_task() {
        sleep_ts(req);
        return 0;
    }
    raw_syscall(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: libc::clockid_t,
    flags: libc::c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> libc::c_int {
    if crate::in_task() {
        if flags & 1 != 0 {
            let until = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
            let n = crate::now();
            if until > n {
                crate::sleep_blocking(until - n);
            }
        } else {
            sleep_ts(req);
        }
        return 0;
    }
    -raw_syscall(libc::SYS_clock_nanosleep, clk as i64, flags as i64, req as i64, rem as i64, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> libc::c_int {
    0
}

/// `libc::syscall` as used by std for futexes.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && crate::in_task() {
        let op = b as i32 & 0x7f;
        let addr = a as *const u32;
        match op {
            0 | 9 => {
                // FUTEX_WAIT, FUTEX_WAIT_BITSET
                if std::ptr::read_volatile(addr) != c as u32 {
                    *libc::__errno_location() = libc::EAGAIN;
                    return -1;
                }
                if d != 0 {
                    // With a timeout: nothing in scope relies on it; wait without one.
                }
                crate::block(futex_res(addr as usize));
                return 0;
            }
            1 | 10 => {
                crate::unblock(futex_res(addr as usize));
                return 1;
            }
            _ => {}
        }
    }
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut libc::c_void, b as usize, 0) as i64;
    }
    let r = raw_syscall(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}

// ------------------------------------------------------------------------------------------------
// Atomics of the instrumented crates.

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

fn is_static(p: usize) -> bool {
    unsafe {
        p >= std::ptr::addr_of!(__data_start) as usize && p < std::ptr::addr_of!(_end) as usize
    }
}

fn futex_res(p: usize) -> Res {
    if is_static(p) || !crate::in_task() {
        Res(p as u64)
    } else {
        crate::addr_res(p)
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Op {
    Load,
    Store,
    Swap,
    Count,
    Rmw,
    Cas,
}

#[inline]
fn hit(p: usize, op: Op) {
    if !crate::in_task() {
        if crate::active() && eng().in_hook && is_static(p) && !eng().hook_statics.contains(&p) {
            eng().hook_statics.push(p);
        }
        return;
    }
    let st = is_static(p);
    // What belongs to the node, by way of the hook.
    if st && eng().hook_statics.contains(&p) {
        if op == Op::Cas {
            // Not while the lock is held: the hook needs it.
            crate::point_named(crate::node_res(crate::node()), Acc::Read, "node static");
        } else {
            crate::access(crate::node_res(crate::node()), Acc::Read);
        }
        return;
    }
    if !st && op == Op::Count {
        // Reference counts (increments are relaxed, decrements release).
        return;
    }
    let e = eng();
    if e.tasks[e.cur].quiet > 0 {
        return;
    }
    let acc = if op == Op::Load { Acc::Read } else { Acc::Write };
    let res = if st { Res(p as u64 ^ (crate::node() as u64) << 48) } else { crate::addr_res(p) };
    crate::point_named(res, acc, if st { "static atomic" } else { "atomic" });
}

/// The place to operate on: statics of eight bytes (counters) exist once per node.
#[inline]
fn at<T>(p: *mut T, op: Op) -> *mut T {
    hit(p as usize, op);
    if std::mem::size_of::<T>() == 8 && is_static(p as usize) && crate::in_task() {
        crate::node_static(p as *mut u64) as *mut T
    } else {
        p
    }
}

macro_rules! atomics {
    ($t:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cas:ident, $cass:ident, $casw:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *mut $t, _: i32) -> $t {
            let p = at(p, Op::Load);
            std::ptr::read_volatile(p)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _: i32) {
            let p = at(p, Op::Store);
            std::ptr::write_volatile(p, v)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _: i32) -> $t {
            let p = at(p, Op::Swap);
            let o = *p;
            *p = v;
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *mut $t, v: $t, order: i32) -> $t {
            let p = at(p, if order == 0 { Op::Count } else { Op::Rmw });
            let o = *p;
            *p = o.wrapping_add(v);
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, order: i32) -> $t {
            let p = at(p, if order == 3 { Op::Count } else { Op::Rmw });
            let o = *p;
            *p = o.wrapping_sub(v);
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _: i32) -> $t {
            let p = at(p, Op::Rmw);
            let o = *p;
            *p = o & v;
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _: i32) -> $t {
            let p = at(p, Op::Rmw);
            let o = *p;
            *p = o | v;
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _: i32) -> $t {
            let p = at(p, Op::Rmw);
            let o = *p;
            *p = o ^ v;
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, _: i32) -> $t {
            let p = at(p, Op::Rmw);
            let o = *p;
            *p = !(o & v);
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, c: $t, v: $t, _: i32, _: i32) -> $t {
            let p = at(p, Op::Cas);
            let o = *p;
            if o == c {
                *p = v;
            }
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cass(p: *mut $t, c: *mut $t, v: $t, _: i32, _: i32) -> i32 {
            let p = at(p, Op::Cas);
            let o = *p;
            if o == *c {
                *p = v;
                1
            } else {
                *c = o;
                0
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $casw(p: *mut $t, c: *mut $t, v: $t, a: i32, b: i32) -> i32 {
            $cass(p, c, v, a, b)
        }
    };
}

atomics!(u8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val, __tsan_atomic8_compare_exchange_strong, __tsan_atomic8_compare_exchange_weak);
atomics!(u16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val, __tsan_atomic16_compare_exchange_strong, __tsan_atomic16_compare_exchange_weak);
atomics!(u32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val, __tsan_atomic32_compare_exchange_strong, __tsan_atomic32_compare_exchange_weak);
atomics!(u64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val, __tsan_atomic64_compare_exchange_strong, __tsan_atomic64_compare_exchange_weak);

#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

/// Keeps this object file in the link.
#[inline(never)]
pub fn init() -> usize {
    (clock_gettime as usize) ^ (getrandom as usize) ^ (syscall as usize) ^ (__tsan_init as usize)
}
