//! Bounded exhaustive exploration of the library under an interpreter that checks every memory access
//! (C23) and that stands in for other kinds of machine (C24). The same program runs
//! * interpreted, as `port run ...`, on the target in question, one shard of the executions per process;
//! * natively, as `port check ...`, which starts those processes, runs every execution itself and compares.
mod drive;
use port::{line, spaces, Out};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    match s(1) {
        // run PROP TIER CLASS SHARD NSHARDS SECONDS
        "run" => {
            let (shard, n, secs): (usize, usize, u64) = (s(5).parse().unwrap(), s(6).parse().unwrap(), s(7).parse().unwrap());
            let t0 = std::time::Instant::now();
            let mut g = 0;
            for sp in spaces::spaces(s(2), s(3) == "thorough").iter().filter(|x| x.class == s(4) && wanted(x.name)) {
                for i in 0..sp.count {
                    if deal(g, n) != shard {
                        g += 1;
                        continue;
                    }
                    g += 1;
                    if t0.elapsed().as_secs() > secs {
                        println!("T");
                        return;
                    }
                    one(sp, i);
                }
            }
            println!("E");
        }
        // leaf PROP TIER SPACE INDEX
        "leaf" => {
            for sp in spaces::spaces(s(2), s(3) == "thorough") {
                if sp.name == s(4) {
                    one(&sp, s(5).parse().unwrap());
                }
            }
            println!("E");
        }
        "nothing" => (),
        "check" => std::process::exit(drive::check(s(2), if s(3) == "thorough" { "thorough" } else { "quick" })),
        "replay" => std::process::exit(drive::replay(s(2))),
        _ => {
            eprintln!("usage: port check ID TIER | replay FILE");
            std::process::exit(2)
        }
    }
}

/// The shard of an execution: the digit sum, so that no choice goes with the shard.
fn deal(mut g: usize, n: usize) -> usize {
    let mut d = 0;
    while g > 0 {
        d += g % n;
        g /= n;
    }
    d % n
}

/// VK_SPACE=name: only this space (for development).
pub fn wanted(name: &str) -> bool {
    std::env::var("VK_SPACE").map_or(true, |w| w == name)
}

/// Counts live allocations.
#[cfg(not(miri))]
struct Counting;
static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
#[cfg(not(miri))]
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        std::alloc::System.realloc(p, l, n)
    }
}
#[cfg(not(miri))]
#[global_allocator]
static COUNTING: Counting = Counting;

fn one(sp: &spaces::Space, i: usize) {
    println!("L {} {}", sp.name, i);
    let live = || LIVE.load(std::sync::atomic::Ordering::Relaxed);
    let run = || {
        let b = live();
        let mut o = Out::default();
        (sp.run)(i, &mut o);
        let l = line(&o);
        drop(o);
        (l, live() - b - 1)
    };
    let (l, grown) = run();
    // what is allocated once (a table made at the first use) is no leak
    if !cfg!(miri) && grown > 0 && run().1 > 0 {
        eprintln!("{} allocations leaked", grown);
        std::process::exit(3);
    }
    println!("{}", l);
}
