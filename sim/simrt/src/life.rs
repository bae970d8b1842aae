//! Exact life times of tracked coefficients: ids are never reused within a process.
use std::sync::atomic::{AtomicI64, AtomicPtr, AtomicU64, Ordering::Relaxed};

const BITS: u64 = 1 << 32;
static MAP: AtomicPtr<AtomicU64> = AtomicPtr::new(std::ptr::null_mut());
static NEXT: AtomicU64 = AtomicU64::new(1);
static LIVE: AtomicI64 = AtomicI64::new(0);
static BORN: AtomicU64 = AtomicU64::new(0);

/// Called once in the zygote.
pub fn init() {
    if MAP.load(Relaxed).is_null() {
        MAP.store(crate::sys::map_private((BITS / 8) as usize) as *mut AtomicU64, Relaxed);
    }
}

#[inline(never)]
fn word(id: u64) -> &'static AtomicU64 {
    unsafe { &*MAP.load(Relaxed).add((id / 64) as usize) }
}

#[inline(never)]
pub fn birth() -> u64 {
    let id = NEXT.fetch_add(1, Relaxed);
    debug_assert!(id < BITS);
    word(id).fetch_or(1 << (id % 64), Relaxed);
    LIVE.fetch_add(1, Relaxed);
    BORN.fetch_add(1, Relaxed);
    id
}

#[inline(never)]
pub fn is_live(id: u64) -> bool {
    id != 0 && id < NEXT.load(Relaxed) && word(id).load(Relaxed) & (1 << (id % 64)) != 0
}

/// false when the id was not live
#[inline(never)]
pub fn death(id: u64) -> bool {
    if !is_live(id) {
        return false;
    }
    let old = word(id).fetch_and(!(1 << (id % 64)), Relaxed);
    LIVE.fetch_sub(1, Relaxed);
    old & (1 << (id % 64)) != 0
}

pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
pub fn born() -> u64 {
    BORN.load(Relaxed)
}
