//! The heap of a simulated process: addresses are a function of the seed and the sequence
//! of allocations (not of the kernel's address-space randomisation), and differ with the
//! seed in order as well as in value. Outside simulated processes, the system's allocator.
use std::alloc::{GlobalAlloc, Layout, System};
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicBool, Ordering};

extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
}

pub const ARENA: usize = 3 << 30;
const BASE: usize = 0x5300_0000_0000;

struct Heap { lo: usize, hi: usize, rng: u64, free: [usize; 40] }

static mut HEAP: Heap = Heap { lo: 0, hi: 0, rng: 0, free: [0; 40] };
static LOCK: AtomicBool = AtomicBool::new(false);
static ON: AtomicBool = AtomicBool::new(false);

/// From now on
pub fn start(seed: u64) -> bool {
    // private, anonymous, no reservation, at this address or not at all
    let p = unsafe { mmap(BASE as *mut c_void, ARENA, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0) };
    if p as usize != BASE { return false }
    unsafe {
        let h = &mut *std::ptr::addr_of_mut!(HEAP);
        h.rng = seed ^ 0x6865_6170;
        h.lo = BASE + (h.next() as usize % 4096) * 16;
        h.hi = BASE + ARENA - (h.next() as usize % 256) * 4096;
    }
    ON.store(true, Ordering::SeqCst);
    true
}

fn ours(p: *mut u8) -> bool { (p as usize).wrapping_sub(BASE) < ARENA && ON.load(Ordering::Relaxed) }

fn class(l: &Layout) -> u32 { l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros() }

impl Heap {
    fn next(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9e3779b97f4a7c15);
        let mut x = self.rng;
        x ^= x >> 30;
        x = x.wrapping_mul(0xbf58476d1ce4e5b9);
        x ^= x >> 27;
        x = x.wrapping_mul(0x94d049bb133111eb);
        x ^ (x >> 31)
    }

    /// New ground, at either end
    fn carve(&mut self, n: usize, align: usize) -> usize {
        let align = align.min(1 << 21);
        if n > ARENA / 2 { return 0 }
        if self.next() % 2 == 0 {
            let p = (self.lo + align - 1) & !(align - 1);
            if p + n > self.hi { return 0 }
            self.lo = p + n;
            p
        } else {
            let p = self.hi.saturating_sub(n) & !(align - 1);
            if p < self.lo { return 0 }
            self.hi = p;
            p
        }
    }

    unsafe fn take(&mut self, c: u32) -> (usize, bool) {
        let k = c as usize;
        if k >= 40 { return (0, true) }
        if self.free[k] != 0 {
            let p = self.free[k];
            self.free[k] = *(p as *const usize);
            return (p, false);
        }
        let size = 1usize << c;
        if c > 13 { return (self.carve(size, size), true) }
        // several at once, handed out in random order
        let n = if c > 10 { 8 } else { 32 };
        let p = self.carve(size * n, size);
        if p == 0 { return (0, true) }
        let mut order = [0usize; 32];
        for i in 0..n { order[i] = i }
        for i in (1..n).rev() { let j = self.next() as usize % (i + 1); order.swap(i, j) }
        for i in 1..n {
            let q = p + order[i] * size;
            *(q as *mut usize) = self.free[k];
            self.free[k] = q;
        }
        (p + order[0] * size, true)
    }
}

fn lock() { while LOCK.compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() { std::hint::spin_loop() } }
fn unlock() { LOCK.store(false, Ordering::Release) }

unsafe fn get(l: &Layout) -> (*mut u8, bool) {
    lock();
    let (p, fresh) = (*std::ptr::addr_of_mut!(HEAP)).take(class(l));
    unlock();
    (p as *mut u8, fresh)
}

pub struct Seeded;

unsafe impl GlobalAlloc for Seeded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.load(Ordering::Relaxed) { return System.alloc(l) }
        get(&l).0
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !ON.load(Ordering::Relaxed) { return System.alloc_zeroed(l) }
        let (p, fresh) = get(&l);
        // new ground is zero already
        if !p.is_null() && !fresh { std::ptr::write_bytes(p, 0, l.size()) }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !ours(p) { return System.dealloc(p, l) }
        let k = class(&l) as usize;
        lock();
        let h = &mut *std::ptr::addr_of_mut!(HEAP);
        *(p as *mut usize) = h.free[k];
        h.free[k] = p as usize;
        unlock();
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !ON.load(Ordering::Relaxed) { return System.realloc(p, l, n) }
        let m = Layout::from_size_align_unchecked(n, l.align());
        if ours(p) && class(&l) == class(&m) { return p }
        let q = self.alloc(m);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
