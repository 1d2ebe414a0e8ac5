mod case;
mod cell;
mod exec;
mod gen;
mod heap;
mod img;
mod judge;
mod model;
mod pcase;
mod pgen;
mod proc;
mod seam;
mod sys;
mod util;
mod driver;

#[global_allocator]
static ALLOCATOR: heap::Seeded = heap::Seeded;

/// Anything that is wrong with the machinery and not with the program under test
pub fn harness_error(m: &str) -> ! {
    eprintln!("harness error: {m}");
    driver::cleanup();
    std::process::exit(3)
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s = |i: usize| a.get(i).cloned().unwrap_or_default();
    let code = match s(0).as_str() {
        "check" => driver::check(&s(1)),
        "worker" => driver::worker(&a[1..]),
        "replay" => driver::replay(&s(1)),
        "selftest" => driver::selftest(),
        "dump" => driver::dump(),
        "cost" => driver::cost(),
        _ => { eprintln!("usage: dst check <property> | replay <file> | selftest"); 2 }
    };
    driver::cleanup();
    std::process::exit(code);
}
