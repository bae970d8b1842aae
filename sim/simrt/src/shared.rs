use std::sync::atomic::{AtomicPtr, Ordering::Relaxed};

pub const MAXLINES: usize = 4096;
pub const MAXDLOG: usize = 1 << 16;
pub const NCOUNT: usize = 48;
pub const KIND0: usize = 40;

#[repr(C)]
pub struct Shared {
    /// 0 running, 1 held, 2 violated, 3 inconclusive
    pub status: u32,
    pub nontrivial: u32,
    pub msg_len: u32,
    pub out_len: u32,
    /// threads of the code under test that the scheduler controls
    pub adopted: u32,
    /// whether there may be others
    pub foreign: u32,
    /// complete executions of the trace so far
    pub laps: u32,
    pub msg: [u8; 8192],
    pub digest: u64,
    pub steps: u64,
    pub counters: [u64; NCOUNT],
    pub line_hooks: [u32; MAXLINES],
    pub line_digest: [u64; MAXLINES],
    pub line_steps: [u64; MAXLINES],
    pub dlog_len: u32,
    pub dlog: [(u64, u32); MAXDLOG],
}

static CUR: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());

pub fn new_shared() -> *mut Shared {
    crate::sys::map_shared(std::mem::size_of::<Shared>()) as *mut Shared
}
pub fn install(p: *mut Shared) {
    CUR.store(p, Relaxed);
}
/// The report page of the current simulated process.
pub fn rep() -> &'static mut Shared {
    unsafe { &mut *CUR.load(Relaxed) }
}

impl Shared {
    pub fn reset(&mut self) {
        self.status = 0;
        self.nontrivial = 0;
        self.msg_len = 0;
        self.adopted = 0;
        self.foreign = 0;
        self.digest = 0;
        self.steps = 0;
        self.counters = [0; NCOUNT];
        self.laps = 0;
        self.dlog_len = 0;
    }
    pub fn set_msg(&mut self, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(self.msg.len());
        self.msg[..n].copy_from_slice(&b[..n]);
        self.msg_len = n as u32;
    }
    pub fn msg(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.msg_len as usize]).into_owned()
    }
    pub fn count(&mut self, i: usize) {
        self.counters[i] += 1;
    }
}

/// Ends the simulated process with a violation, from any thread.
pub fn fatal(msg: &str) -> ! {
    let r = rep();
    if r.status == 0 {
        r.set_msg(msg);
        r.status = 2;
    }
    unsafe { crate::sys::_exit(0) }
}
