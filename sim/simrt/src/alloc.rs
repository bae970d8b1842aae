use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};

pub static BYTES: AtomicI64 = AtomicI64::new(0);
pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
static WORK: AtomicU64 = AtomicU64::new(0);

/// Counts, and fills fresh memory with 0xA5 and released memory with 0xDD, so that a read of
/// uninitialised or released memory is the same in every execution.
///
/// Inside a simulated process all blocks come from an arena at a fixed address with last-in first-out
/// reuse: the addresses of a run depend on nothing but the run.
pub struct Counting;

const BASE: usize = 0x5000_0000_0000;
const LEN: usize = 1 << 31;
const CLASSES: usize = 96;

struct Arena {
    top: usize,
    free: [usize; CLASSES],
}
static mut ARENA: Arena = Arena { top: BASE, free: [0; CLASSES] };
static ON: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);

/// Reserve the arena (zygote).
pub fn reserve() {
    let p = unsafe { crate::sys::mmap(BASE as *mut u8, LEN, 3, 0x02 | 0x20 | 0x4000 | 0x100000, -1, 0) };
    assert!(p as usize == BASE, "cannot reserve the arena");
}
/// From here on allocate from the arena (simulated process, right after fork).
pub fn activate() {
    ON.store(true, SeqCst);
}

fn class(size: usize) -> (usize, usize) {
    if size <= 1024 {
        let c = size.max(1).div_ceil(16);
        (c, c * 16)
    } else {
        let b = (size - 1).ilog2() as usize + 1;
        (64 + b - 10, 1 << b)
    }
}
fn request(l: Layout) -> usize {
    // blocks of a class are aligned to 16 (small) or to their own size up to 4096
    if l.align() <= 16 { l.size() } else { l.size().max(l.align()).max(1025) }
}
struct G;
impl G {
    #[inline]
    fn take() -> G {
        while LOCK.swap(true, Acquire) {
            std::hint::spin_loop();
        }
        G
    }
}
impl Drop for G {
    #[inline]
    fn drop(&mut self) {
        LOCK.store(false, Release);
    }
}

unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    if l.size() > LEN / 4 || l.align() > 4096 {
        return std::ptr::null_mut();
    }
    let (c, sz) = class(request(l));
    let _g = G::take();
    let a = &mut *(&raw mut ARENA);
    if a.free[c] != 0 {
        let p = a.free[c];
        a.free[c] = *(p as *const usize);
        return p as *mut u8;
    }
    let al = if sz <= 1024 { 16 } else { sz.min(4096) };
    let p = (a.top + al - 1) & !(al - 1);
    if p + sz > BASE + LEN {
        return std::ptr::null_mut();
    }
    a.top = p + sz;
    p as *mut u8
}
unsafe fn arena_free(p: *mut u8, l: Layout) {
    let (c, _) = class(request(l));
    let _g = G::take();
    let a = &mut *(&raw mut ARENA);
    *(p as *mut usize) = a.free[c];
    a.free[c] = p as usize;
}
#[inline]
fn inside(p: *mut u8) -> bool {
    (p as usize).wrapping_sub(BASE) < LEN
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = if ON.load(Relaxed) { arena_alloc(l) } else { System.alloc(l) };
        if !p.is_null() {
            BYTES.fetch_add(l.size() as i64, Relaxed);
            BLOCKS.fetch_add(1, Relaxed);
            WORK.fetch_add(8 + l.size() as u64 / 16, Relaxed);
            std::ptr::write_bytes(p, 0xA5, l.size().min(1 << 16));
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = if ON.load(Relaxed) { arena_alloc(l) } else { System.alloc(l) };
        if !p.is_null() {
            BYTES.fetch_add(l.size() as i64, Relaxed);
            BLOCKS.fetch_add(1, Relaxed);
            WORK.fetch_add(8 + l.size() as u64 / 16, Relaxed);
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BYTES.fetch_sub(l.size() as i64, Relaxed);
        BLOCKS.fetch_sub(1, Relaxed);
        std::ptr::write_bytes(p, 0xDD, l.size().min(1 << 16));
        if inside(p) {
            arena_free(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
}

pub fn bytes() -> i64 {
    BYTES.load(Relaxed)
}
/// A measure of all allocations so far
pub fn work() -> u64 {
    WORK.load(Relaxed)
}
pub fn blocks() -> i64 {
    BLOCKS.load(Relaxed)
}
