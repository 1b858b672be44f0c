//! Memory shared between the master, the workers and the forked executions.

use std::sync::atomic::{AtomicU64, Ordering};

pub const MAXT: usize = 16384;
pub const MAXMSG: usize = 16384;

pub const NONE: u32 = 0;
pub const OK: u32 = 1;
pub const VIOLATION: u32 = 2;
pub const PRUNED: u32 = 3;
pub const DIVERGED: u32 = 4;
pub const CRASH: u32 = 5;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(C)]
pub struct Entry {
    pub c: u8,
    pub n: u8,
    pub cost: u8,
    pub pad: u8,
    pub site: u32,
}

#[repr(C)]
pub struct Slot {
    pub status: u32,
    pub ntrace: u32,
    pub nprefix: u32,
    pub prune: u32,
    pub verbose: u32,
    pub msglen: u32,
    pub steps: u64,
    pub outcome: u64,
    pub prefix: [Entry; MAXT],
    pub trace: [Entry; MAXT],
    pub msg: [u8; MAXMSG],
}

static mut SLOT: *mut Slot = std::ptr::null_mut();

pub fn set_slot(p: *mut Slot) {
    unsafe { SLOT = p }
}

#[inline]
pub fn slot() -> &'static mut Slot {
    unsafe { &mut *SLOT }
}

pub fn alloc_slot() -> *mut Slot {
    map(std::mem::size_of::<Slot>()) as *mut Slot
}

pub fn map(len: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap failed");
        p as *mut u8
    }
}

/// Records the result of this execution and ends the process.
pub fn finish(status: u32, msg: &str) -> ! {
    let s = slot();
    let b = msg.as_bytes();
    let l = b.len().min(MAXMSG);
    s.msg[..l].copy_from_slice(&b[..l]);
    s.msglen = l as u32;
    s.steps = crate::total_steps();
    s.status = status;
    unsafe { libc::_exit(0) }
}

// The set of states seen: open addressing, insert only.

pub const SEEN_BITS: usize = 26;
static mut SEEN: *mut AtomicU64 = std::ptr::null_mut();
static mut SEEN_COUNT: *mut AtomicU64 = std::ptr::null_mut();

pub fn seen_alloc() {
    unsafe {
        SEEN = map(8 << SEEN_BITS) as *mut AtomicU64;
        SEEN_COUNT = map(4096) as *mut AtomicU64;
    }
}

pub fn seen_free() {
    unsafe {
        if !SEEN.is_null() {
            libc::munmap(SEEN as *mut _, 8 << SEEN_BITS);
            libc::munmap(SEEN_COUNT as *mut _, 4096);
        }
        SEEN = std::ptr::null_mut();
    }
}

pub fn seen_count() -> u64 {
    unsafe { (*SEEN_COUNT).load(Ordering::Relaxed) }
}

pub fn seen_full() -> bool {
    seen_count() > (3 << SEEN_BITS) / 4
}

/// Returns true if the state was not seen before.
pub fn seen_insert(fp: u64) -> bool {
    let mask = (1usize << SEEN_BITS) - 1;
    let mut i = (fp >> 7) as usize & mask;
    loop {
        let cell = unsafe { &*SEEN.add(i) };
        let v = cell.load(Ordering::Relaxed);
        if v == fp {
            return false;
        }
        if v == 0 {
            match cell.compare_exchange(0, fp, Ordering::Relaxed, Ordering::Relaxed) {
                Ok(_) => {
                    unsafe { (*SEEN_COUNT).fetch_add(1, Ordering::Relaxed) };
                    return true;
                }
                Err(v) if v == fp => return false,
                Err(_) => {}
            }
        }
        i = (i + 1) & mask;
    }
}
