//! Baton scheduler: of the simulated threads exactly one runs, and who runs next is decided here.
use crate::prng::{comb, Rng};
use crate::seam::TLS;
use crate::shared::{fatal, rep, MAXDLOG};
use crate::sys;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

/// Threads the simulator starts.
pub const MAXT: usize = 40;
/// Those and the threads the code under test starts.
const SLOTS: usize = MAXT + 44;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Absent,
    Ready,
    Blocked(usize, bool), // futex address, has a timeout
    Done,
}

#[derive(Clone, Debug)]
pub enum Mode {
    /// Preempt with a mean distance of `gap` points; at accesses to static memory with chance `boost`/16.
    Random { seed: u64, gap: u64, boost: u64 },
    /// Exactly `n` preemptions, uniform over `span` points (plus the boost).
    Sparse { seed: u64, n: u64, span: u64, boost: u64 },
    /// Replay: switch to `.1` at point `.0`.
    Plan(&'static [(u64, u32)]),
}

struct S {
    /// threads of the simulator; the run ends with the last of them
    own: usize,
    n: usize,
    cur: usize,
    st: [St; SLOTS],
    timed_out: [bool; SLOTS],
    step: u64,
    run_len: u64,
    next: u64,
    rng: Rng,
    gap: u64,
    boost: u64,
    plan: &'static [(u64, u32)],
    pos: usize,
    is_plan: bool,
    cap: u64,
    sig: u64,
    switches: u64,
    static_hits: u64,
    lo: usize,
    hi: usize,
    sparse: [u64; MAXSPARSE],
    n_sparse: usize,
}
const MAXSPARSE: usize = 64;

static mut SCHED: Option<S> = None;
static GO: [AtomicU32; SLOTS] = [const { AtomicU32::new(0) }; SLOTS];
static FINISHED: AtomicU32 = AtomicU32::new(0);
const FAIR: u64 = 400_000;

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[allow(static_mut_refs)]
fn s() -> &'static mut S {
    unsafe { SCHED.as_mut().unwrap() }
}

fn fwait(w: &AtomicU32) {
    while w.swap(0, SeqCst) == 0 {
        unsafe { sys::raw6(sys::SYS_FUTEX, w.as_ptr() as i64, 128, 0, 0, 0, 0) };
    }
}
fn fwake(w: &AtomicU32) {
    w.store(1, SeqCst);
    unsafe { sys::raw6(sys::SYS_FUTEX, w.as_ptr() as i64, 129, 1, 0, 0, 0) };
}

/// Prepare a run of `n` threads. `cap`: points after which the run counts as never finishing.
pub fn setup(n: usize, mode: &Mode, cap: u64) {
    // Nothing here may allocate: a replayed run must see the same heap.
    let mut pts = [0u64; MAXSPARSE];
    let mut npts = 0;
    let empty: &'static [(u64, u32)] = &[];
    let (rng, gap, boost, plan, is_plan) = match mode {
        Mode::Random { seed, gap, boost } => (Rng::new(*seed), *gap, *boost, empty, false),
        Mode::Sparse { seed, n, span, boost } => {
            let mut r = Rng::new(*seed);
            npts = (*n as usize).min(MAXSPARSE);
            for p in &mut pts[..npts] {
                *p = 1 + r.below(*span);
            }
            pts[..npts].sort_unstable_by(|a, b| b.cmp(a));
            (r, 0, *boost, empty, false)
        }
        Mode::Plan(p) => (Rng::new(0), 0, 0, *p, true),
    };
    let mut st = [St::Absent; SLOTS];
    for i in 0..n {
        st[i] = St::Ready;
    }
    let mut sc = S {
        own: n, n, cur: 0, st, timed_out: [false; SLOTS], step: 0, run_len: 0, next: 0, rng, gap, boost,
        plan, pos: 0, is_plan, cap, sig: 0, switches: 0, static_hits: 0,
        lo: &raw const __data_start as usize,
        hi: &raw const _end as usize,
        sparse: pts,
        n_sparse: npts,
    };
    sc.draw();
    unsafe {
        if let Some(old) = &*(&raw const SCHED) {
            // threads the code under test has already
            for i in (MAXT..old.n).filter(|&i| !matches!(old.st[i], St::Done | St::Absent)) {
                sc.st[i] = old.st[i];
                sc.n = i + 1;
            }
        }
        *(&raw mut SCHED) = Some(sc);
    }
    TLS.with(|t| t.tid.set(-1));
    FINISHED.store(0, SeqCst);
    ARRIVED.store(0, SeqCst);
    crate::shared::rep().dlog_len = 0;
    for g in &GO {
        g.store(0, SeqCst);
    }
}

impl S {
    fn draw(&mut self) {
        if self.is_plan {
            self.next = self.plan.get(self.pos).map(|p| p.0).unwrap_or(u64::MAX);
        } else if self.gap > 0 {
            // geometric-ish
            let u = self.rng.f01().max(1e-12);
            self.next = self.step + 1 + (-u.ln() * self.gap as f64) as u64;
        } else {
            self.next = loop {
                if self.n_sparse == 0 {
                    break u64::MAX;
                }
                self.n_sparse -= 1;
                let p = self.sparse[self.n_sparse];
                if p > self.step {
                    break p;
                }
            };
        }
    }
    fn is_ready(&self, t: usize) -> bool {
        t < self.n && self.st[t] == St::Ready
    }
    /// uniformly one of the ready threads other than `not`
    fn pick(&mut self, not: usize) -> Option<usize> {
        let k = (0..self.n).filter(|&t| t != not && self.is_ready(t)).count();
        if k == 0 {
            return None;
        }
        let i = self.rng.us(k);
        (0..self.n).filter(|&t| t != not && self.is_ready(t)).nth(i)
    }
    fn log(&mut self, t: usize) {
        self.sig = comb(self.sig, (self.run_len << 6) | t as u64);
        self.switches += 1;
        let r = rep();
        if (r.dlog_len as usize) < MAXDLOG {
            r.dlog[r.dlog_len as usize] = (self.step, t as u32);
            r.dlog_len += 1;
        }
    }
    /// target of a voluntary switch (preemption) or None
    fn choose_preempt(&mut self) -> Option<usize> {
        let me = self.cur;
        if self.is_plan {
            let t = self.plan[self.pos].1 as usize;
            self.pos += 1;
            self.draw();
            return (t < self.n && t != me && self.st[t] == St::Ready).then_some(t);
        }
        self.draw();
        self.pick(me)
    }
    /// next thread when the current one cannot go on
    fn choose_forced(&mut self) -> Option<usize> {
        self.step += 1;
        let first = (0..self.n).find(|&t| self.is_ready(t))?;
        if self.is_plan {
            let mut want = None;
            while self.pos < self.plan.len() && self.plan[self.pos].0 <= self.step {
                if self.plan[self.pos].0 == self.step {
                    want = Some(self.plan[self.pos].1 as usize);
                }
                self.pos += 1;
            }
            self.draw();
            if let Some(t) = want {
                if self.is_ready(t) {
                    return Some(t);
                }
            }
            return Some(first);
        }
        self.pick(SLOTS)
    }
}

fn switch(from: Option<usize>, to: usize) {
    let sc = s();
    sc.log(to);
    sc.cur = to;
    sc.run_len = 0;
    if Some(to) == from {
        return;
    }
    fwake(&GO[to]);
    if let Some(me) = from {
        fwait(&GO[me]);
    }
}

/// A scheduling point of the running thread.
#[inline]
pub fn point(addr: usize) {
    let sc = s();
    sc.step += 1;
    sc.run_len += 1;
    if sc.step >= sc.next
        || sc.run_len > FAIR
        || sc.step > sc.cap
        || (addr.wrapping_sub(sc.lo) < sc.hi - sc.lo && !sc.is_plan)
    {
        slow(addr);
    }
}

#[cold]
#[inline(never)]
fn slow(addr: usize) {
    let sc = s();
    if sc.step > sc.cap {
        fatal(&format!("a call does not finish: {} scheduling points passed", sc.step));
    }
    let me = sc.cur;
    if sc.step >= sc.next {
        if let Some(t) = sc.choose_preempt() {
            switch(Some(me), t);
            return;
        }
    }
    if addr.wrapping_sub(sc.lo) < sc.hi - sc.lo && !sc.is_plan {
        sc.static_hits += 1;
        if sc.boost > 0 && sc.rng.below(16) < sc.boost {
            if let Some(t) = sc.pick(me) {
                switch(Some(me), t);
                return;
            }
        }
    }
    if sc.run_len > FAIR {
        // fairness: nobody runs alone for ever
        let t = (me + 1..sc.n).chain(0..me).find(|&t| sc.is_ready(t));
        sc.run_len = 0;
        if let Some(t) = t {
            if t != me {
                // fairness switches are part of the rules, not of the plan
                let sc = s();
                sc.sig = comb(sc.sig, 0xfa1 ^ t as u64);
                sc.cur = t;
                fwake(&GO[t]);
                fwait(&GO[me]);
            }
        }
    }
}

static ARRIVED: AtomicU32 = AtomicU32::new(0);

/// Wait until `n` threads have entered: they are started one after the other, so that starting is
/// the same in every execution.
pub fn arrived(n: u32) {
    loop {
        let a = ARRIVED.load(SeqCst);
        if a >= n {
            return;
        }
        unsafe { sys::raw6(sys::SYS_FUTEX, ARRIVED.as_ptr() as i64, 128, a as i64, 0, 0, 0) };
    }
}

/// First thing a simulated thread does.
pub fn enter(tid: usize) {
    ARRIVED.fetch_add(1, SeqCst);
    unsafe { sys::raw6(sys::SYS_FUTEX, ARRIVED.as_ptr() as i64, 129, 1024, 0, 0, 0) };
    fwait(&GO[tid]);
    TLS.with(|t| t.tid.set(tid as i32));
}

/// Last thing a simulated thread does.
pub fn leave(tid: usize) {
    TLS.with(|t| t.tid.set(-1));
    let sc = s();
    sc.st[tid] = St::Done;
    pass_on(None);
    // the thread's own tear-down must not run beside the others
    while FINISHED.load(SeqCst) == 0 {
        unsafe { sys::raw6(sys::SYS_FUTEX, FINISHED.as_ptr() as i64, 128, 0, 0, 0, 0) };
    }
}

fn pass_on(me: Option<usize>) {
    let sc = s();
    loop {
        // what the code under test still has running when the last call is over is left where it is
        let over = (0..sc.own).all(|i| sc.st[i] == St::Done);
        if !over {
            if let Some(t) = sc.choose_forced() {
                switch(me, t);
                return;
            }
        }
        if over {
            FINISHED.store(1, SeqCst);
            unsafe { sys::raw6(sys::SYS_FUTEX, FINISHED.as_ptr() as i64, 129, 1024, 0, 0, 0) };
            return;
        }
        // nobody can run: let simulated time pass until a timed wait ends
        let mut any = false;
        for i in 0..sc.n {
            if let St::Blocked(_, true) = sc.st[i] {
                sc.st[i] = St::Ready;
                sc.timed_out[i] = true;
                any = true;
                break;
            }
        }
        if !any {
            if rep().foreign != 0 {
                // one of the threads outside the simulation may go on
                let r = rep();
                r.set_msg("inconclusive: foreign threads");
                r.status = 3;
                unsafe { sys::_exit(0) }
            }
            let w: Vec<usize> = (0..sc.n).filter(|&i| matches!(sc.st[i], St::Blocked(..))).collect();
            fatal(&format!("deadlock: threads {:?} wait for each other and none can run", w));
        }
    }
}

/// Start the prepared run and wait for its end. The threads must have been spawned.
pub fn run() {
    let sc = s();
    let first = sc.choose_forced().unwrap();
    sc.log(first);
    sc.cur = first;
    fwake(&GO[first]);
    while FINISHED.load(SeqCst) == 0 {
        unsafe { sys::raw6(sys::SYS_FUTEX, FINISHED.as_ptr() as i64, 128, 0, 0, 0, 0) };
    }
}

/// (points, switches, interleaving signature, accesses to static memory)
pub fn stats() -> (u64, u64, u64, u64) {
    let sc = s();
    (sc.step, sc.switches, sc.sig, sc.static_hits)
}

// ---------------------------------------------------------------- threads of the code under test

type Routine = extern "C" fn(*mut u8) -> *mut u8;
static mut START: [(Option<Routine>, *mut u8); SLOTS] = [(None, std::ptr::null_mut()); SLOTS];
static mut HANDLE: [u64; SLOTS] = [0; SLOTS];
static mut KEY: Option<u32> = None;
static mut SEED: u64 = 0;

/// Seed of the order of threads in processes without a schedule of their own.
pub fn seed_order(s: u64) {
    unsafe { *(&raw mut SEED) = s };
}

extern "C" fn trampoline(slot: *mut u8) -> *mut u8 {
    let slot = slot as usize;
    fwait(&GO[slot]);
    TLS.with(|t| t.tid.set(slot as i32));
    unsafe {
        // its destructor runs after those of the thread's own variables
        sys::pthread_setspecific((*(&raw const KEY)).unwrap(), 1 as *mut u8);
        let (f, arg) = (*(&raw const START))[slot];
        f.unwrap()(arg)
    }
}
extern "C" fn gone(_: *mut u8) {
    let slot = TLS.with(|t| t.tid.replace(-1)) as usize;
    let sc = s();
    sc.st[slot] = St::Done;
    wake(sc, join_address(slot));
    pass_on(None);
}
fn join_address(slot: usize) -> usize {
    &raw const GO[slot] as usize + 1
}
fn wake(sc: &mut S, addr: usize) {
    for i in 0..sc.n {
        if matches!(sc.st[i], St::Blocked(a, _) if a == addr) {
            sc.st[i] = St::Ready;
        }
    }
}

/// The first thread of the process is simulated thread 0, next to those of the code under test.
fn alone() {
    setup(1, &Mode::Random { seed: unsafe { *(&raw const SEED) }, gap: 30, boost: 4 }, u64::MAX);
    TLS.with(|t| t.tid.set(0));
}
/// After a run: the code under test may need its threads again.
pub fn after() {
    let sc = s();
    if (MAXT..sc.n).any(|i| !matches!(sc.st[i], St::Done | St::Absent)) {
        let keep = (sc.step, sc.switches, sc.sig, sc.static_hits);
        alone();
        let sc = s();
        (sc.step, sc.switches, sc.sig, sc.static_hits) = keep;
        sc.draw();
    }
}

/// The code under test starts a thread: it becomes one of the simulated threads.
pub unsafe fn create(th: *mut u64, attr: *const u8, f: Routine, arg: *mut u8) -> i32 {
    let me = TLS.with(|t| t.tid.get());
    if me < 0 {
        if !crate::seam::main_thread() {
            rep().foreign = 1;
            return sys::real_create(th, attr, f, arg);
        }
        alone();
    }
    let sc = s();
    let slot = (MAXT..SLOTS).find(|&i| matches!(sc.st[i], St::Done | St::Absent)).unwrap_or(SLOTS);
    if slot >= SLOTS {
        rep().foreign = 1;
        return sys::real_create(th, attr, f, arg);
    }
    if (*(&raw const KEY)).is_none() {
        let mut k = 0;
        if sys::pthread_key_create(&mut k, gone) != 0 {
            rep().foreign = 1;
            return sys::real_create(th, attr, f, arg);
        }
        *(&raw mut KEY) = Some(k);
    }
    (*(&raw mut START))[slot] = (Some(f), arg);
    GO[slot].store(0, SeqCst);
    let r = sys::real_create(th, attr, trampoline, slot as *mut u8);
    if r == 0 {
        (*(&raw mut HANDLE))[slot] = *th;
        sc.n = sc.n.max(slot + 1);
        sc.st[slot] = St::Ready;
        sc.timed_out[slot] = false;
        rep().adopted += 1;
        point(0);
    }
    r
}

pub unsafe fn join(th: u64) {
    let me = TLS.with(|t| t.tid.get());
    if me < 0 {
        return;
    }
    let sc = s();
    if let Some(slot) = (MAXT..sc.n).find(|&i| !matches!(sc.st[i], St::Done | St::Absent) && (*(&raw const HANDLE))[i] == th) {
        sc.st[me as usize] = St::Blocked(join_address(slot), false);
        pass_on(Some(me as usize));
    }
}

/// A thread asks to be scheduled later.
pub fn yields() -> bool {
    if TLS.with(|t| t.tid.get() < 0 || t.quiet.get() > 0) {
        return false;
    }
    s().run_len += FAIR / 20;
    point(0);
    true
}

/// A thread sleeps: simulated time passes only when nobody else can run.
pub fn sleeps() -> bool {
    let me = TLS.with(|t| t.tid.get());
    if me < 0 {
        return false;
    }
    let sc = s();
    sc.st[me as usize] = St::Blocked(0, true);
    sc.timed_out[me as usize] = false;
    pass_on(Some(me as usize));
    s().timed_out[me as usize] = false;
    true
}

fn tasks() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

pub fn futex(addr: i64, op: i64, val: i64, timeout: i64, e: i64, f: i64) -> i64 {
    let tid = TLS.with(|t| t.tid.get());
    let cmd = op & 0x7f;
    unsafe {
        if tid < 0 {
            if (cmd == 0 || cmd == 9) && timeout == 0 && crate::seam::solo() && tasks() == 1 {
                let w = &*(addr as *const AtomicU32);
                if w.load(SeqCst) == val as u32 {
                    fatal("deadlock: the call waits for a lock that nobody else can release");
                }
            }
            return sys::raw6(sys::SYS_FUTEX, addr, op, val, timeout, e, f);
        }
        let sc = s();
        match cmd {
            0 | 9 => {
                // WAIT, WAIT_BITSET
                let w = &*(addr as *const AtomicU32);
                if w.load(SeqCst) != val as u32 {
                    return -11;
                }
                let me = tid as usize;
                sc.st[me] = St::Blocked(addr as usize, timeout != 0);
                sc.timed_out[me] = false;
                pass_on(Some(me));
                if s().timed_out[me] {
                    s().timed_out[me] = false;
                    return -110;
                }
                0
            }
            1 | 10 => {
                let mut n = 0;
                for i in 0..sc.n {
                    if n >= val {
                        break;
                    }
                    if let St::Blocked(a, _) = sc.st[i] {
                        if a == addr as usize {
                            sc.st[i] = St::Ready;
                            n += 1;
                        }
                    }
                }
                // threads outside the simulation may wait there too
                sys::raw6(sys::SYS_FUTEX, addr, op, val, timeout, e, f);
                n
            }
            _ => sys::raw6(sys::SYS_FUTEX, addr, op, val, timeout, e, f),
        }
    }
}
