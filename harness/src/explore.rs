//! Exhaustive stateless exploration: every execution is a sequence of choices; all of them are
//! enumerated (depth-first, each leaf exactly once) by a pool of threads.
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res<T = ()> = Result<T, String>;

#[derive(Default, Clone, Copy)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
pub type Set = HashSet<u64, BuildHasherDefault<Ident>>;

pub fn mix(h: u64, v: u64) -> u64 {
    let mut x = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 32;
    x.wrapping_add(h.rotate_left(17))
}

/// Cap on the number of state hashes kept (memory bound; the count is then a lower bound).
const MAX_STATES_PER_THREAD: usize = 4_000_000;

#[derive(Default)]
pub struct Counters {
    pub states: Set,
    pub outcomes: Set,
    pub transitions: u64,
    pub executions: u64,
    pub checks: u64,
    pub ambiguous: u64,
    pub max_depth: usize,
    pub capped: bool,
}

impl Counters {
    pub fn merge(&mut self, o: Counters) {
        self.states.extend(o.states);
        self.outcomes.extend(o.outcomes);
        self.transitions += o.transitions;
        self.executions += o.executions;
        self.checks += o.checks;
        self.ambiguous += o.ambiguous;
        self.max_depth = self.max_depth.max(o.max_depth);
        self.capped |= o.capped;
    }
}

/// The environment's choices of one execution.
pub struct Ch<'a> {
    prefix: &'a [u32],
    taken: Vec<u32>,
    arity: Vec<u32>,
    pub log: Option<Vec<String>>,
    pub ctr: &'a mut Counters,
}

impl<'a> Ch<'a> {
    /// A context that offers no choices (for work done on another thread).
    pub fn detached(prefix: &'a [u32], ctr: &'a mut Counters) -> Ch<'a> {
        Ch { prefix, taken: vec![], arity: vec![], log: None, ctr }
    }
    /// Nondeterministic choice among `0..n`.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0 && n <= u32::MAX as usize);
        let i = self.taken.len();
        let v = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        assert!((v as usize) < n, "HARNESS: replay diverged: choice {} of {} at {}", v, n, i);
        self.taken.push(v);
        self.arity.push(n as u32);
        v as usize
    }
    pub fn of<T: Clone>(&mut self, s: &[T]) -> T {
        s[self.pick(s.len())].clone()
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.pick(hi - lo + 1)
    }
    /// Whether what happens now has not been seen by an earlier execution sharing this prefix.
    pub fn fresh(&self) -> bool {
        self.taken.len() >= self.prefix.len()
    }
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            l.push(f());
        }
    }
    /// A transition of the system into the (canonical) state `h`.
    pub fn state(&mut self, h: u64) {
        if self.fresh() {
            self.ctr.transitions += 1;
            if self.ctr.states.len() < MAX_STATES_PER_THREAD {
                self.ctr.states.insert(h);
            } else {
                self.ctr.capped = true;
            }
        }
    }
    pub fn outcome(&mut self, h: u64) {
        if self.fresh() && self.ctr.outcomes.len() < 1_000_000 {
            self.ctr.outcomes.insert(h);
        }
    }
    pub fn checked(&mut self) {
        self.ctr.checks += 1;
    }
    pub fn ambiguous(&mut self) {
        self.ctr.ambiguous += 1;
    }
    pub fn ambiguous_n(&mut self, n: u64) {
        self.ctr.ambiguous += n;
    }
}

pub type Body = Box<dyn Fn(&mut Ch) -> Res + Sync + Send>;

/// One closed system to explore.
pub struct Space {
    pub name: &'static str,
    pub bound: String,
    pub body: Body,
}

pub fn space(
    name: &'static str,
    bound: impl Into<String>,
    body: impl Fn(&mut Ch) -> Res + Sync + Send + 'static,
) -> Space {
    Space { name, bound: bound.into(), body: Box::new(body) }
}

#[derive(Clone)]
pub struct Violation {
    pub space: String,
    pub choices: Vec<u32>,
    pub message: String,
    pub trace: Vec<String>,
}

struct Task {
    base: Vec<u32>,
    lo: u32,
    hi: u32,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("panic at {}: {}", loc, msg)
            }
        });
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs one execution. Returns (result, taken choices, arities, log).
pub fn run_one(
    body: &Body,
    prefix: &[u32],
    ctr: &mut Counters,
    log: bool,
) -> (Res, Vec<u32>, Vec<u32>, Vec<String>) {
    let mut ch = Ch {
        prefix,
        taken: Vec::with_capacity(prefix.len() + 8),
        arity: Vec::with_capacity(prefix.len() + 8),
        log: if log { Some(Vec::new()) } else { None },
        ctr,
    };
    let csr = crate::sys::mxcsr();
    let r = catch_unwind(AssertUnwindSafe(|| body(&mut ch)));
    crate::sys::set_mxcsr(csr & !0x3f);
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(last_panic()),
    };
    ch.ctr.executions += 1;
    ch.ctr.max_depth = ch.ctr.max_depth.max(ch.taken.len());
    (r, ch.taken, ch.arity, ch.log.unwrap_or_default())
}

/// Where each thread notes the case it is working on (a shared mapping read by the parent).
pub struct Progress {
    ptr: *mut u8,
}
unsafe impl Sync for Progress {}
unsafe impl Send for Progress {}
pub const SLOT: usize = 4096;
pub const SLOTS: usize = 16;
impl Progress {
    pub fn new(ptr: *mut u8) -> Self {
        Progress { ptr }
    }
    /// Slot layout: seq u64 | active u32 | space u32 | len u32 | choices
    fn begin(&self, slot: usize, space: usize, base: &[u32], last: Option<u32>) {
        unsafe {
            let p = self.ptr.add(slot * SLOT);
            let seq = p as *mut u64;
            (p.add(8) as *mut u32).write_volatile(0);
            (p.add(12) as *mut u32).write_volatile(space as u32);
            let n = (base.len() + last.is_some() as usize).min((SLOT - 64) / 4);
            (p.add(16) as *mut u32).write_volatile(n as u32);
            let d = p.add(20) as *mut u32;
            for i in 0..n {
                let v = if i < base.len() { base[i] } else { last.unwrap() };
                d.add(i).write_volatile(v);
            }
            seq.write_volatile(seq.read_volatile().wrapping_add(1));
            (p.add(8) as *mut u32).write_volatile(1);
        }
    }
    fn end(&self, slot: usize) {
        unsafe { (self.ptr.add(slot * SLOT + 8) as *mut u32).write_volatile(0) }
    }
    /// (seq, active, space, choices)
    pub fn read(&self, slot: usize) -> (u64, bool, usize, Vec<u32>) {
        unsafe {
            let p = self.ptr.add(slot * SLOT);
            let n = (p.add(16) as *const u32).read_volatile() as usize;
            let d = p.add(20) as *const u32;
            (
                (p as *const u64).read_volatile(),
                (p.add(8) as *const u32).read_volatile() == 1,
                (p.add(12) as *const u32).read_volatile() as usize,
                (0..n.min((SLOT - 64) / 4)).map(|i| d.add(i).read_volatile()).collect(),
            )
        }
    }
}

pub struct Explored {
    pub ctr: Counters,
    pub complete: bool,
    pub wall: f64,
    pub violation: Option<Violation>,
    pub samples: Vec<(Vec<u32>, Vec<String>)>,
}

pub fn explore(idx: usize, sp: &Space, threads: usize, deadline: Instant, pr: &Progress) -> Explored {
    let t0 = Instant::now();
    let shared: Mutex<Vec<Task>> = Mutex::new(vec![Task { base: vec![], lo: 0, hi: 0 }]);
    let waiting = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let timed_out = AtomicBool::new(false);
    let found: Mutex<Option<Violation>> = Mutex::new(None);
    let total: Mutex<Counters> = Mutex::new(Counters::default());
    let sample_pool: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![]);
    let runs = AtomicU64::new(0);

    std::thread::scope(|s| {
        for t in 0..threads {
            let (shared, waiting, stop, timed_out, found, total, sample_pool, runs) =
                (&shared, &waiting, &stop, &timed_out, &found, &total, &sample_pool, &runs);
            s.spawn(move || {
                let mut ctr = Counters::default();
                let mut local: Vec<Task> = Vec::new();
                let mut prefix: Vec<u32> = Vec::new();
                'outer: loop {
                    let mut task = match local.pop() {
                        Some(t) => t,
                        None => {
                            waiting.fetch_add(1, SeqCst);
                            loop {
                                if stop.load(Relaxed) {
                                    break 'outer;
                                }
                                let mut g = shared.lock().unwrap();
                                if let Some(t) = g.pop() {
                                    waiting.fetch_sub(1, SeqCst);
                                    break t;
                                }
                                let all_idle = waiting.load(SeqCst) == threads;
                                drop(g);
                                if all_idle {
                                    break 'outer;
                                }
                                std::thread::sleep(Duration::from_micros(50));
                            }
                        }
                    };
                    // one execution of this task
                    prefix.clear();
                    prefix.extend_from_slice(&task.base);
                    let last = if task.hi > 0 { Some(task.lo) } else { None };
                    if let Some(l) = last {
                        prefix.push(l);
                    }
                    pr.begin(t, idx, &task.base, last);
                    let (r, taken, arity, _) = run_one(&sp.body, &prefix, &mut ctr, false);
                    pr.end(t);
                    if let Err(m) = r {
                        let mut g = found.lock().unwrap();
                        if g.is_none() {
                            *g = Some(Violation {
                                space: sp.name.into(),
                                choices: taken.clone(),
                                message: m,
                                trace: vec![],
                            });
                        }
                        stop.store(true, SeqCst);
                        break 'outer;
                    }
                    let n = runs.fetch_add(1, Relaxed);
                    if n.is_power_of_two() {
                        let mut g = sample_pool.lock().unwrap();
                        if g.len() < 40 {
                            g.push(taken.clone());
                        }
                    }
                    if task.hi > 0 && task.lo + 1 < task.hi {
                        task.lo += 1;
                        local.push(task);
                    }
                    for i in prefix.len()..taken.len() {
                        if arity[i] > 1 {
                            local.push(Task { base: taken[..i].to_vec(), lo: 1, hi: arity[i] });
                        }
                    }
                    if waiting.load(Relaxed) > 0 && !local.is_empty() {
                        let mut g = shared.lock().unwrap();
                        if g.is_empty() {
                            if local.len() > 1 {
                                g.push(local.remove(0));
                            } else {
                                let t = &mut local[0];
                                if t.hi - t.lo > 1 {
                                    let mid = t.lo + (t.hi - t.lo) / 2;
                                    let o = Task { base: t.base.clone(), lo: mid, hi: t.hi };
                                    t.hi = mid;
                                    g.push(o);
                                }
                            }
                        }
                    }
                    if n % 16 == 0 && Instant::now() > deadline {
                        timed_out.store(true, SeqCst);
                        stop.store(true, SeqCst);
                    }
                    if stop.load(Relaxed) {
                        break 'outer;
                    }
                }
                total.lock().unwrap().merge(ctr);
            });
        }
    });

    let mut violation = found.into_inner().unwrap();
    let mut samples = vec![];
    let mut scratch = Counters::default();
    if let Some(v) = &mut violation {
        let (r, _, _, log) = run_one(&sp.body, &v.choices, &mut scratch, true);
        v.trace = log;
        if r.is_ok() {
            v.message = format!("{} (not reproduced when replayed alone)", v.message);
        }
    } else {
        let pool = sample_pool.into_inner().unwrap();
        let mut pick: Vec<usize> = vec![0, pool.len() / 2, pool.len().saturating_sub(1)];
        pick.dedup();
        for i in pick {
            if let Some(c) = pool.get(i) {
                let (_, _, _, log) = run_one(&sp.body, c, &mut scratch, true);
                samples.push((c.clone(), log));
            }
        }
    }
    Explored {
        ctr: total.into_inner().unwrap(),
        complete: !timed_out.into_inner() && violation.is_none(),
        wall: t0.elapsed().as_secs_f64(),
        violation,
        samples,
    }
}
