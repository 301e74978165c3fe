#![allow(dead_code)]
mod explore;
mod known;
mod lock;
mod model;
mod props;
mod signal;
mod step;
mod supervise;
mod sut;
mod sys;

#[global_allocator]
static A: sys::alloc::Faulty = sys::alloc::Faulty;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::process::exit(supervise::main(&args));
}
