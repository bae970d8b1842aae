#![allow(non_camel_case_types)]
use std::arch::asm;

pub const SYS_FUTEX: i64 = 202;
pub const SYS_GETRANDOM: i64 = 318;

#[inline]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    asm!("syscall", inlateout("rax") n => ret, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}

extern "C" {
    pub fn fork() -> i32;
    pub fn _exit(c: i32) -> !;
    pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn munmap(a: *mut u8, len: usize) -> i32;
    pub fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    pub fn personality(p: u64) -> i32;
    pub fn execv(path: *const i8, argv: *const *const i8) -> i32;
    pub fn __errno_location() -> *mut i32;
    pub fn usleep(us: u32) -> i32;
    pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    pub fn pthread_key_create(k: *mut u32, f: extern "C" fn(*mut u8)) -> i32;
    pub fn pthread_setspecific(k: u32, v: *mut u8) -> i32;
    fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
    pub fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

unsafe fn next(name: &'static [u8]) -> *mut u8 {
    let p = dlsym(-1isize as *mut u8, name.as_ptr());
    assert!(!p.is_null(), "a symbol of libc is missing");
    p
}
pub type Create = unsafe extern "C" fn(*mut u64, *const u8, extern "C" fn(*mut u8) -> *mut u8, *mut u8) -> i32;
pub unsafe fn real_create(th: *mut u64, attr: *const u8, f: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) -> i32 {
    let c: Create = std::mem::transmute(next(b"pthread_create\0"));
    c(th, attr, f, arg)
}
pub unsafe fn real_join(th: u64, ret: *mut *mut u8) -> i32 {
    let c: unsafe extern "C" fn(u64, *mut *mut u8) -> i32 = std::mem::transmute(next(b"pthread_join\0"));
    c(th, ret)
}

pub fn map_shared(len: usize) -> *mut u8 {
    unsafe {
        let p = mmap(std::ptr::null_mut(), len, 3, 0x01 | 0x20, -1, 0);
        assert!(p as isize != -1, "mmap failed");
        p
    }
}
/// private, reserved without backing until touched
pub fn map_private(len: usize) -> *mut u8 {
    unsafe {
        let p = mmap(std::ptr::null_mut(), len, 3, 0x02 | 0x20 | 0x4000, -1, 0);
        assert!(p as isize != -1, "mmap failed");
        p
    }
}
