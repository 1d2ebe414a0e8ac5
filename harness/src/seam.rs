//! Seams of the in-process simulations: randomness (std's hash keys and the `rand` crate
//! both end in `getrandom`), and the step counter fed by the instrumented crate.
use crate::sys;
use crate::util::mix;
use std::os::raw::{c_int, c_long, c_void};

pub static mut ON: bool = false;
static mut SEED: u64 = 0;
static mut CTR: u64 = 0;
pub static mut DRAWS: u64 = 0;

pub static mut STEPS: u64 = 0;
pub static mut LIMIT: u64 = u64::MAX;
pub static mut COV: *mut u8 = std::ptr::null_mut();
pub const COV_LEN: usize = 1 << 16;
static mut NGUARDS: u32 = 0;

pub const EXIT_STEPS: c_int = 77;

/// Inside a simulated process: seeded randomness, bounded steps
pub fn enter(seed: u64, step_limit: u64) {
    unsafe {
        ON = true;
        SEED = seed;
        CTR = 0;
        STEPS = 0;
        LIMIT = step_limit;
    }
}

static mut STEPS_BEFORE: u64 = 0;

/// A new budget of steps (for the next operation in the same process)
pub fn restart_steps() {
    unsafe {
        STEPS_BEFORE += STEPS;
        STEPS = 0;
    }
}

pub fn total_steps() -> u64 {
    unsafe { STEPS_BEFORE + STEPS }
}

unsafe fn fill(p: *mut u8, n: usize) {
    DRAWS += 1;
    for i in 0..n {
        if i % 8 == 0 {
            CTR += 1;
        }
        *p.add(i) = (mix(SEED ^ mix(CTR)) >> (8 * (i % 8))) as u8;
    }
}

unsafe fn ret(r: c_long) -> c_long {
    if r < 0 && r > -4096 {
        *sys::__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}

const SYS_GETRANDOM: c_long = 318;

#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: usize, f: u32) -> isize {
    if ON {
        fill(b as *mut u8, n);
        return n as isize;
    }
    ret(sys::raw(SYS_GETRANDOM, b as c_long, n as c_long, f as c_long, 0, 0, 0)) as isize
}

// variadic in C; on this ABI all integer arguments arrive in the same registers
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if ON && n == SYS_GETRANDOM {
        fill(a as *mut u8, b as usize);
        return b;
    }
    ret(sys::raw(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    let mut p = a;
    while p < b {
        NGUARDS += 1;
        *p = NGUARDS;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ON {
        return;
    }
    STEPS += 1;
    if !COV.is_null() {
        *COV.add(*g as usize & (COV_LEN - 1)) = 1;
    }
    if STEPS > LIMIT {
        sys::_exit(EXIT_STEPS);
    }
}

/* ---- what else differs between processes: clock, process number, processors ---- */

static mut CLOCK_CALLS: u64 = 0;
static mut STALLED: i64 = 0;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: c_int, t: *mut [i64; 2]) -> c_int {
    if !ON {
        return ret(sys::raw(228, c as c_long, t as c_long, 0, 0, 0, 0)) as c_int;
    }
    // a step takes from 1 ns to 10 us, and in half of the processes the machine stalls now and
    // then between two looks at the clock, by 1 us to 100 s
    CLOCK_CALLS += 1;
    if SEED & 1 == 1 && mix(SEED ^ CLOCK_CALLS ^ 0x7374616c) % 8 == 0 {
        let r = mix(SEED ^ CLOCK_CALLS ^ 0x6c6c);
        STALLED += 10i64.pow(3 + (r % 8) as u32) * (1 + (r >> 8) % 10) as i64;
    }
    let step = [1, 1, 30, 1000, 10_000][(mix(SEED ^ 0x73746570) % 5) as usize];
    let mut ns = 1_000_000_000 + (STEPS_BEFORE + STEPS) as i64 * step + STALLED;
    if c == 0 || c == 5 {
        // somewhere between 2001 and 2033, and it jumps by up to an hour
        ns += 1_000_000_000 * (978_307_200 + (mix(SEED ^ 0x64617465) % 1_000_000_000) as i64);
        ns += (mix(SEED ^ CLOCK_CALLS) % 7_200_000_000_000) as i64 - 3_600_000_000_000;
    }
    *t = [ns / 1_000_000_000, ns % 1_000_000_000];
    0
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if ON { 2 + (mix(SEED ^ 0x706964) % 30_000) as c_int } else { sys::raw(39, 0, 0, 0, 0, 0, 0) as c_int }
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(p: c_int, n: usize, set: *mut u8) -> c_int {
    if !ON {
        return if ret(sys::raw(204, p as c_long, n as c_long, set as c_long, 0, 0, 0)) < 0 { -1 } else { 0 };
    }
    std::ptr::write_bytes(set, 0, n);
    *set = [1u8, 3, 7, 15, 255][(mix(SEED ^ 0x637075) % 5) as usize];
    0
}
