use crate::prng::Rng;
use crate::sched;
use crate::sys;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

/// Payload of an injected panic.
pub struct Fault;

pub struct Tls {
    /// simulated thread id, -1 when the thread is not simulated
    pub tid: Cell<i32>,
    /// callbacks since `arm`
    pub count: Cell<u64>,
    /// callback at which to panic, 0 = never
    pub at: Cell<u64>,
    pub on: Cell<bool>,
    pub fired: Cell<bool>,
    /// scheduling points are ignored while > 0
    pub quiet: Cell<u32>,
}

thread_local! {
    pub static TLS: Tls = const { Tls {
        tid: Cell::new(-1), count: Cell::new(0), at: Cell::new(0),
        on: Cell::new(false), fired: Cell::new(false), quiet: Cell::new(0),
    } };
}

/// Start counting callbacks; panic at the `at`-th one (0: never).
pub fn arm(at: u64) {
    TLS.with(|t| {
        t.count.set(0);
        t.at.set(at);
        t.fired.set(false);
        t.on.set(true);
    })
}

/// Stop counting. Returns (callbacks seen, fault fired).
pub fn disarm() -> (u64, bool) {
    TLS.with(|t| {
        t.on.set(false);
        t.at.set(0);
        (t.count.get(), t.fired.get())
    })
}

pub fn fired() -> bool {
    TLS.with(|t| t.fired.get())
}
pub fn callbacks() -> u64 {
    TLS.with(|t| t.count.get())
}

/// Kinds of callbacks, counted from `shared::KIND0` when interrupted.
pub const ARITH: usize = 0;
pub const CLONE: usize = 1;
pub const CONST: usize = 2;
pub const TEST: usize = 3;
pub const CONVERT: usize = 4;
pub const FORMAT: usize = 5;
pub const CLOSURE: usize = 6;

/// A callback from the library into a caller's closure or stream.
#[inline(never)]
pub fn hook() {
    hook_k(CLOSURE)
}

/// A callback from the library into caller code.
#[inline(never)]
pub fn hook_k(kind: usize) {
    TLS.with(|t| {
        if t.on.get() {
            let c = t.count.get() + 1;
            t.count.set(c);
            if c == t.at.get() && !std::thread::panicking() {
                t.at.set(0);
                t.fired.set(true);
                fire(kind);
            }
        }
        if t.tid.get() >= 0 && t.quiet.get() == 0 {
            sched::point(0);
        }
    })
}

#[cold]
#[inline(never)]
fn fire(kind: usize) -> ! {
    crate::shared::rep().counters[crate::shared::KIND0 + kind] += 1;
    std::panic::resume_unwind(Box::new(Fault))
}

/// Run without scheduling points (harness bookkeeping).
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            TLS.with(|t| t.quiet.set(t.quiet.get() - 1));
        }
    }
    TLS.with(|t| t.quiet.set(t.quiet.get() + 1));
    let _g = G;
    f()
}

static SOLO: AtomicBool = AtomicBool::new(false);
/// Declares that the simulated process has one thread: a wait without timeout is a deadlock.
pub fn set_solo(b: bool) {
    SOLO.store(b, Relaxed);
}
pub fn solo() -> bool {
    SOLO.load(Relaxed)
}

// ---------------------------------------------------------------- entropy

static mut ENTROPY: Rng = Rng(0x5eed);
static mut ENTROPY_CALLS: u64 = 0;

pub fn seed_entropy(s: u64) {
    unsafe {
        *(&raw mut ENTROPY) = Rng::new(s);
        *(&raw mut ENTROPY_CALLS) = 0;
    }
    sched::seed_order(s ^ 0x0cde_4ed0);
    MAIN.with(|m| m.set(true));
    SIMULATED.store(true, Relaxed);
}

thread_local! {
    static MAIN: Cell<bool> = const { Cell::new(false) };
}
/// Whether this is the first thread of a simulated process.
pub fn main_thread() -> bool {
    MAIN.with(|m| m.get())
}
static SIMULATED: AtomicBool = AtomicBool::new(false);
static OWN: AtomicBool = AtomicBool::new(false);
/// Declares that threads started from here on belong to the simulator.
pub fn own_threads(b: bool) {
    OWN.store(b, Relaxed);
}

/// In front of libc's: threads the code under test starts run under the scheduler.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(th: *mut u64, attr: *const u8, f: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) -> i32 {
    if OWN.load(Relaxed) || !SIMULATED.load(Relaxed) {
        return sys::real_create(th, attr, f, arg);
    }
    sched::create(th, attr, f, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: u64, ret: *mut *mut u8) -> i32 {
    sched::join(th);
    sys::real_join(th, ret)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if !sched::yields() {
        sys::raw6(24, 0, 0, 0, 0, 0, 0);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const u8, b: *mut u8) -> i32 {
    if sched::sleeps() {
        return 0;
    }
    (sys::raw6(35, a as i64, b as i64, 0, 0, 0, 0) >> 63) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, fl: i32, a: *const u8, b: *mut u8) -> i32 {
    if sched::sleeps() {
        return 0;
    }
    -sys::raw6(230, c as i64, fl as i64, a as i64, b as i64, 0, 0) as i32
}
pub fn entropy_calls() -> u64 {
    unsafe { *(&raw const ENTROPY_CALLS) }
}

unsafe fn fill(buf: *mut u8, len: usize) {
    let e = &mut *(&raw mut ENTROPY);
    *(&raw mut ENTROPY_CALLS) += 1;
    for i in 0..len {
        *buf.add(i) = e.next() as u8;
    }
}

/// In front of libc's: std asks this for the keys of its hash maps.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    fill(buf, len);
    len as isize
}

/// In front of libc's: std's locks, parking and once cells wait through this.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r = match n {
        sys::SYS_GETRANDOM => {
            fill(a as *mut u8, b as usize);
            b
        }
        sys::SYS_FUTEX => sched::futex(a, b, c, d, e, f),
        _ => sys::raw6(n, a, b, c, d, e, f),
    };
    if r < 0 && r > -4096 {
        *sys::__errno_location() = -r as i32;
        return -1;
    }
    r
}

// ---------------------------------------------------------------- compiler instrumentation

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(_a: *mut u32, _b: *mut u32) {}

#[inline]
fn point(addr: usize) {
    TLS.with(|t| {
        if t.tid.get() >= 0 && t.quiet.get() == 0 {
            sched::point(addr);
        }
    })
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(_g: *mut u32) {
    point(0)
}
macro_rules! access {
    ($($n:ident)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(p: *mut u8) { point(p as usize) }
    )*};
}
access!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
