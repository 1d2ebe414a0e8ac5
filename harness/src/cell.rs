//! A simulated process for codec-level runs: a forked child of a pristine single-threaded
//! worker. All its randomness is seeded, its steps are counted and bounded, its memory is
//! limited, and whatever it does to itself (panic, abort, stack overflow) stays there.
use crate::seam;
use crate::sys;
use std::os::raw::c_int;

const SHM: usize = 1 << 28;
const HDR: usize = 1 << 12;
const COV_OFF: usize = HDR;
const DATA: usize = HDR + seam::COV_LEN;
const MSG_OFF: usize = 128;
const MSG_MAX: usize = 2048;

#[derive(Debug, Clone, PartialEq)]
pub enum End { Done, Panic(String), Steps, Signal(i32), Exit(i32), Cpu }

impl End {
    pub fn text(&self) -> String {
        match self {
            End::Done => "finished".into(),
            End::Panic(m) => format!("panicked: {m}"),
            End::Steps => "did not finish within the step limit".into(),
            End::Signal(6) => "aborted (signal 6: stack overflow, double panic or out of memory)".into(),
            End::Signal(s) => format!("was killed by signal {s}"),
            End::Exit(c) => format!("exited with status {c}"),
            End::Cpu => "used up its processor time".into(),
        }
    }
}

pub struct Res { pub end: End, pub data: Vec<u8>, pub steps: u64, pub draws: u64, pub progress: u64 }

pub struct Cell { p: *mut u8 }

/// The child's side: results go to shared memory
#[derive(Clone, Copy)]
pub struct Port { p: *mut u8 }
unsafe impl Send for Port {}
unsafe impl Sync for Port {}

impl Port {
    fn word(&self, i: usize) -> *mut u64 { unsafe { (self.p as *mut u64).add(i) } }
    pub fn push(&mut self, b: &[u8]) {
        unsafe {
            let n = *self.word(1) as usize;
            if DATA + n + b.len() > SHM { sys::_exit(78) }
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(DATA + n), b.len());
            *self.word(1) += b.len() as u64;
        }
    }
    pub fn put_u64(&mut self, x: u64) { self.push(&x.to_le_bytes()) }
    pub fn put_bytes(&mut self, b: &[u8]) { self.put_u64(b.len() as u64); self.push(b) }
    pub fn progress(&mut self, x: u64) { unsafe { *self.word(3) = x } }
    fn msg(&self, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(MSG_MAX);
        unsafe {
            if *self.word(2) != 0 { return }
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(MSG_OFF), n);
            *self.word(2) = n as u64 + 1;
        }
    }
}

pub struct Reader<'a>(pub &'a [u8]);
impl<'a> Reader<'a> {
    pub fn u64(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    pub fn bytes(&mut self) -> &'a [u8] {
        let n = self.u64() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
}

impl Cell {
    pub fn new() -> Cell {
        let p = unsafe { sys::mmap(std::ptr::null_mut(), SHM, sys::PROT_RW, sys::MAP_SHARED_ANON | 0x4000, -1, 0) };
        if p as isize <= 0 { crate::harness_error("cannot map shared memory") }
        unsafe { seam::COV = (p as *mut u8).add(COV_OFF) };
        Cell { p: p as *mut u8 }
    }

    pub fn coverage(&self) -> u64 {
        (0..seam::COV_LEN).filter(|i| unsafe { *self.p.add(COV_OFF + i) } != 0).count() as u64
    }

    pub fn covered(&self) -> Vec<u64> {
        (0..seam::COV_LEN).filter(|i| unsafe { *self.p.add(COV_OFF + i) } != 0).map(|x| x as u64).collect()
    }

    pub fn run<F: FnOnce(&mut Port) + Send>(&self, seed: u64, limit: u64, f: F) -> Res {
        let port = Port { p: self.p };
        for i in 0..8 { unsafe { *port.word(i) = 0 } }
        let pid = unsafe { sys::fork() };
        if pid < 0 { crate::harness_error("fork failed") }
        if pid == 0 {
            child(port, seed, limit, f);
        }
        let mut st: c_int = 0;
        loop {
            let r = unsafe { sys::waitpid(pid, &mut st, 0) };
            if r == pid { break }
        }
        let w = |i| unsafe { *port.word(i) };
        let n = w(1) as usize;
        let data = unsafe { std::slice::from_raw_parts(self.p.add(DATA), n) }.to_vec();
        let sig = st & 0x7f;
        let code = (st >> 8) & 0xff;
        let msg = || {
            let n = (w(2).max(1) - 1) as usize;
            String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(self.p.add(MSG_OFF), n) }).into_owned()
        };
        let end = match (sig, code) {
            (0, 0) => End::Done,
            (0, 101) => End::Panic(msg()),
            (0, c) if c == seam::EXIT_STEPS => End::Steps,
            (0, c) if c == 78 => crate::harness_error("result too large for the shared buffer"),
            (0, 79) => crate::harness_error("cannot map the heap of a simulated process"),
            (0, c) => End::Exit(c),
            (24, _) | (26, _) => End::Cpu,
            (14, _) => crate::harness_error("a simulated process made no progress in real time"),
            (s, _) => End::Signal(s),
        };
        Res { end, data, steps: w(4), draws: w(5), progress: w(3) }
    }
}

fn child<F: FnOnce(&mut Port) + Send>(port: Port, seed: u64, limit: u64, f: F) -> ! {
    use std::os::fd::AsRawFd;
    if let Ok(n) = std::fs::OpenOptions::new().read(true).write(true).open("/dev/null") {
        for fd in 0..3 { unsafe { sys::dup2(n.as_raw_fd(), fd); } }
    }
    sys::limit(sys::RLIMIT_CPU, 120);
    sys::limit(sys::RLIMIT_CORE, 0);
    sys::limit(sys::RLIMIT_AS, crate::heap::ARENA as u64 + (2 << 30));
    unsafe { sys::alarm(400); }
    let hook_port = port;
    std::panic::set_hook(Box::new(move |i| { let p = hook_port; p.msg(&i.to_string()); }));
    if !crate::heap::start(seed) { unsafe { sys::_exit(79) } }
    seam::enter(seed, limit);
    let mut p = port;
    // the program runs its codecs on worker threads with this stack size
    let ok = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(2 << 20)
            .spawn_scoped(s, move || { let mut p = p; f(&mut p); })
            .map_or(false, |h| h.join().is_ok())
    });
    unsafe {
        *p.word(4) = seam::total_steps();
        *p.word(5) = seam::DRAWS;
    }
    p.progress(unsafe { *port.word(3) });
    unsafe { sys::_exit(if ok { 0 } else { 101 }) }
}
