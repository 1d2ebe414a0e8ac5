//! The few libc calls needed (no libc crate: keep the dependencies to what is present).
use std::os::raw::{c_int, c_long, c_void};

extern "C" {
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, opts: c_int) -> c_int;
    pub fn mmap(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    pub fn munmap(a: *mut c_void, n: usize) -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn dup2(a: c_int, b: c_int) -> c_int;
    pub fn setrlimit(r: c_int, l: *const [u64; 2]) -> c_int;
    pub fn setitimer(which: c_int, new: *const [i64; 4], old: *mut [i64; 4]) -> c_int;
    pub fn alarm(s: u32) -> u32;
    pub fn __errno_location() -> *mut c_int;
}

pub const PROT_RW: c_int = 3;
pub const MAP_SHARED: c_int = 1;
pub const MAP_SHARED_ANON: c_int = 0x21;
pub const RLIMIT_CPU: c_int = 0;
pub const RLIMIT_CORE: c_int = 4;
pub const RLIMIT_AS: c_int = 9;

pub fn limit(r: c_int, n: u64) {
    unsafe { setrlimit(r, &[n, n]); }
}

/// A raw system call (the `syscall` symbol is ours, see seam.rs)
#[inline]
pub unsafe fn raw(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}
