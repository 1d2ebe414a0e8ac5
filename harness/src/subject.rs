//! The simulated process: the real program's entry point (or a session program that
//! shares one codec object between threads), linked with the process simulator.

mod heap;
use std::alloc::{GlobalAlloc, Layout};

extern "C" {
    fn sim_mem(delta: i64) -> i32;
    fn sim_seed() -> u64;
}

const HEAP: heap::Seeded = heap::Seeded;

/// A heap at seeded addresses, counted (and made to fail) by the simulator
struct Counted;

unsafe impl GlobalAlloc for Counted {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if sim_mem(l.size() as i64) == 0 { return std::ptr::null_mut() }
        HEAP.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if sim_mem(l.size() as i64) == 0 { return std::ptr::null_mut() }
        HEAP.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        HEAP.dealloc(p, l);
        sim_mem(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if sim_mem(n as i64 - l.size() as i64) == 0 { return std::ptr::null_mut() }
        HEAP.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOCATOR: Counted = Counted;

fn main() {
    if !heap::start(unsafe { sim_seed() }) { std::process::abort() }
    let session = std::env::args().nth(1).map_or(false, |a| a == "--session");
    if session {
        session_main()
    } else {
        cniic::sim::run_main()
    }
}

/// subject --session <codec> <threads> <op>..
/// op = <thread>:<kind>:<input file>:<result file>; each thread executes its ops in order,
/// all threads share one codec object. The thread after the last one is the main thread.
/// kind = e (encode) | d (decode) | o=<codec> (encode with another object); with @ in front
/// the operation runs on a worker of rayon's pool.
fn session_main() {
    let args: Vec<String> = std::env::args().skip(2).collect();
    let codec = cniic::sim::codec(&args[0]).expect("codec");
    let nthreads: usize = args[1].parse().unwrap();
    let ops: Vec<Vec<String>> = args[2..].iter()
        .map(|o| o.splitn(4, ':').map(String::from).collect())
        .collect();
    let codec = &codec;
    let ops = &ops;
    let work = |t: usize| {
        for op in ops.iter().filter(|o| o[0].parse::<usize>().unwrap() == t) {
            let input = std::fs::read(&op[2]).unwrap();
            let (pool, kind) = match op[1].strip_prefix('@') { Some(k) => (true, k), None => (false, &op[1][..]) };
            let one = || match kind {
                "e" => encode(codec, &input),
                o if o.starts_with("o=") => encode(&cniic::sim::codec(&o[2..]).expect("codec"), &input),
                _ => decode(codec, &input),
            };
            let out = if pool { rayon::scope(|_| one()) } else { one() };
            std::fs::write(&op[3], out).unwrap();
        }
    };
    let work = &work;
    std::thread::scope(|s| {
        for t in 0..nthreads {
            s.spawn(move || work(t));
        }
        work(nthreads);
    });
}

// Raw images: width, height (u32 LE), RGB triples
fn encode(codec: &cniic::sim::Codec, input: &[u8]) -> Vec<u8> {
    let w = u32::from_le_bytes(input[0..4].try_into().unwrap());
    let h = u32::from_le_bytes(input[4..8].try_into().unwrap());
    let img = image::RgbImage::from_raw(w, h, input[8..].to_vec()).unwrap();
    let mut out = vec![b'S'];
    match codec.encode(&img.into(), &mut out) {
        Ok(()) => out,
        Err(_) => vec![b'E'],
    }
}

fn decode(codec: &cniic::sim::Codec, input: &[u8]) -> Vec<u8> {
    let mut it = input.iter().cloned();
    match codec.decode(&mut it) {
        Some(img) => {
            let img = img.to_rgb8();
            let mut out = vec![b'S'];
            out.extend_from_slice(&img.width().to_le_bytes());
            out.extend_from_slice(&img.height().to_le_bytes());
            out.extend_from_slice(img.as_raw());
            out
        }
        None => vec![b'N'],
    }
}
