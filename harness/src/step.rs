//! Controlled scheduling of two real threads at instruction granularity.
//!
//! The first thread runs its operation under the processor's single-step flag. After every
//! instruction of this executable (the library is linked into it; C library code is stepped over) a
//! trap handler counts, and at the chosen instruction hands control to the second thread, which
//! runs its operation to the end or, single-stepped as well, up to a chosen instruction of its own.
//! Then the first thread finishes, then the second one. Every pair of preemption points is one
//! schedule; the threads never run at the same time unless one of them is blocked by the other.
use std::cell::UnsafeCell;
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::sync::{Arc, Once};
use std::time::{Duration, Instant};

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: c_int,
    restorer: usize,
}

extern "C" {
    fn sigaction(sig: c_int, act: *const SigAction, old: *mut SigAction) -> c_int;
    fn sched_yield() -> c_int;
    static __executable_start: u8;
    static etext: u8;
}

const SIGTRAP: c_int = 5;
const TF: u64 = 0x100;
const REG_RIP: usize = 168;
const REG_EFL: usize = 176;

struct Stepping {
    active: bool,
    count: u64,
    at: u64,
    every: bool,
    /// Also count instructions outside this executable (C library).
    all: bool,
    hook: Option<*const dyn Fn()>,
}
struct Slot(UnsafeCell<Stepping>);

thread_local! {
    static SLOT: Slot = const { Slot(UnsafeCell::new(Stepping { active: false, count: 0, at: 0, every: false, all: false, hook: None })) };
}

unsafe extern "C" fn on_trap(_: c_int, _: *mut c_void, ctx: *mut c_void) {
    let rip = *((ctx as *const u8).add(REG_RIP) as *const u64) as usize;
    let efl = (ctx as *mut u8).add(REG_EFL) as *mut u64;
    let p = SLOT.with(|s| s.0.get());
    let s = &mut *p;
    if !s.active {
        *efl &= !TF;
        return;
    }
    if !s.all && (rip < &__executable_start as *const u8 as usize || rip >= &etext as *const u8 as usize) {
        return;
    }
    s.count += 1;
    if s.count == s.at || s.every {
        if !s.every {
            s.active = false;
            *efl &= !TF;
        }
        if let Some(h) = s.hook {
            (*h)();
        }
    }
}

fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let a = SigAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4 | 0x4000_0000, restorer: 0 };
        let r = unsafe { sigaction(SIGTRAP, &a, std::ptr::null_mut()) };
        assert_eq!(r, 0, "HARNESS: sigaction");
    });
}

/// Runs `f` single-stepped; `hook` is called right before its `at`-th instruction (1-based), after
/// which `f` runs on at full speed (`at` 0: before every instruction). Returns f's result and the instructions counted.
#[inline(never)]
fn stepped<T>(f: impl FnOnce() -> T, at: u64, all: bool, hook: &dyn Fn()) -> (T, u64) {
    install();
    let p = SLOT.with(|s| s.0.get());
    unsafe {
        *p = Stepping { active: true, count: 0, at, every: at == 0, all, hook: Some(std::mem::transmute::<*const dyn Fn(), *const (dyn Fn() + 'static)>(hook as *const dyn Fn())) };
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
    let r = f();
    unsafe {
        std::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq");
        (*p).active = false;
        (r, (*p).count)
    }
}

/// Number of instructions of this executable that `f` runs.
pub fn count<T>(f: impl FnOnce() -> T) -> (T, u64) {
    stepped(f, u64::MAX, false, &|| {})
}

/// Number of all instructions that `f` runs.
pub fn count_all<T>(f: impl FnOnce() -> T) -> (T, u64) {
    stepped(f, u64::MAX, true, &|| {})
}

type Job = Box<dyn FnMut() + Send>;

struct Shared {
    /// 0: idle, 1: job posted, 2: preempted, 3: go on, 4: done
    state: AtomicU32,
    job: std::sync::Mutex<Option<(Job, u64)>>,
    /// Instructions the second operation ran (if stepped).
    steps: AtomicU64,
}

/// The second thread.
pub struct Partner(Arc<Shared>);

impl Partner {
    pub fn spawn() -> Self {
        let s = Arc::new(Shared { state: AtomicU32::new(0), job: std::sync::Mutex::new(None), steps: AtomicU64::new(0) });
        let t = s.clone();
        std::thread::spawn(move || loop {
            let mut spins = 0u32;
            while t.state.load(Acquire) != 1 {
                relax(&mut spins);
            }
            let mut g = t.job.lock().unwrap();
            let (j, at) = g.as_mut().expect("HARNESS: job");
            let at = *at;
            let body = || {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j));
            };
            if at == 0 {
                body();
            } else {
                let ((), n) = stepped(body, at, false, &|| {
                    t.state.store(2, Release);
                    let mut spins = 0u32;
                    while t.state.load(Acquire) != 3 {
                        relax(&mut spins);
                    }
                });
                t.steps.store(n, Relaxed);
            }
            drop(g);
            t.state.store(4, Release);
        });
        Partner(s)
    }
    fn start(&self) {
        self.0.state.store(1, Release);
    }
    /// Waits until the second thread is done or preempted, or (blocked by the first) time is up.
    fn settle(&self, limit: Duration) -> u32 {
        let t0 = Instant::now();
        let mut spins = 0u32;
        loop {
            let s = self.0.state.load(Acquire);
            if s == 2 || s == 4 {
                return s;
            }
            if spins > 200 && t0.elapsed() > limit {
                return s;
            }
            relax(&mut spins);
        }
    }
}

fn relax(spins: &mut u32) {
    *spins += 1;
    if *spins < 100 {
        std::hint::spin_loop();
    } else {
        unsafe { sched_yield() };
    }
}

pub struct Outcome<A> {
    pub a: A,
    /// The first operation had that many instructions before the preemption point (or in all).
    pub reached: bool,
    pub partner_preempted: bool,
    pub blocked: bool,
}

/// One schedule in which `b` runs between every two instructions of `a` (and once at its end).
/// Returns a's result, the number of runs of `b` so far and whether `b` was ever blocked by `a`.
pub fn everywhere<A>(p: &Partner, a: impl FnOnce() -> A, b: Job) -> (A, u64, bool) {
    *p.0.job.lock().unwrap() = Some((b, 0));
    p.0.state.store(0, Release);
    let runs = std::cell::Cell::new(0u64);
    let blocked = std::cell::Cell::new(false);
    let hook = || {
        // still blocked by us: let it be
        if p.0.state.load(Acquire) == 1 {
            return;
        }
        p.start();
        runs.set(runs.get() + 1);
        if p.settle(Duration::from_millis(20)) == 1 {
            blocked.set(true);
        }
    };
    let (a, _) = stepped(a, 0, false, &hook);
    if p.0.state.load(Acquire) == 1 {
        p.settle(Duration::from_secs(3600));
    }
    p.start();
    p.settle(Duration::from_secs(3600));
    p.0.job.lock().unwrap().take();
    (a, runs.get() + 1, blocked.get())
}

/// One schedule: `a` up to instruction `k`; `b` on the other thread up to its instruction `m` (0: to
/// its end); `a` to its end; `b` to its end. If `a` has fewer instructions, `b` runs after it.
pub fn schedule<A>(p: &Partner, a: impl FnOnce() -> A, b: Job, k: u64, m: u64) -> Outcome<A> {
    let st = std::cell::Cell::new(0u32);
    *p.0.job.lock().unwrap() = Some((b, m));
    p.0.state.store(0, Release);
    let hook = || {
        p.start();
        st.set(p.settle(Duration::from_millis(20)));
    };
    let (a, _) = stepped(a, k, false, &hook);
    let reached = st.get() != 0;
    if !reached {
        p.start();
    }
    let blocked = st.get() == 1;
    // let the second thread finish (the supervisor notices a deadlock)
    let mut preempted = st.get() == 2;
    loop {
        match p.settle(Duration::from_secs(3600)) {
            2 => {
                preempted |= reached;
                p.0.state.store(3, Release);
                let mut spins = 0u32;
                while p.0.state.load(Acquire) == 3 {
                    relax(&mut spins);
                }
            }
            _ => break,
        }
    }
    p.0.job.lock().unwrap().take();
    Outcome { a, reached, partner_preempted: preempted, blocked }
}
