//! C21: independence of analysers and threads.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::signal::*;
use crate::sut::*;
use ebur128::EbuR128;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Barrier;

const WIN: [u32; 3] = [34, 400, 3000];

/// Configurations that differ in everything that could be shared by mistake.
fn config_of(i: usize, variant: usize) -> (u32, u32, u8) {
    [
        [(2, 30, NOHIST), (2, 30, NOHIST), (2, 30, NOHIST)],
        [(2, 30, NOHIST), (1, 34, NOHIST), (5, 80, ALL)],
        [(1, 30, ALL), (3, 34, ALL), (1, 31, I)],
        [(2, 8000, I | TP), (2, 11025, I | TP), (1, 96000, I | TP)],
    ][variant][i]
}
const VARIANTS: usize = 4;

/// Script of an analyser: operation `k` of instance `i` (the same in every schedule).
fn op<T: Sut>(l: &mut Lock<T>, c: &mut Ch, i: usize, k: usize, step: usize) -> Res
where
    Lock<T>: SeedReset,
{
    let chn = l.m.channels;
    let s = l.m.s100;
    let st = 711 + 20 * i as u64 + step as u64;
    match k {
        0 => l.add(c, Entry::F64, &wide(st, chn, 0, 4 * s + 2, 0.7)),
        1 => l.add(c, Entry::PI16, &grid(st, chn, 0, s + 1, 0.9)),
        2 => l.do_seed(c, &grid(st, chn, 0, s, 0.8)),
        3 => l.set_channel(c, 0, ebur128::Channel::Mp060),
        4 => l.do_reset(c),
        5 => {
            let r = if l.m.rate == 30 { 31 } else { 30 };
            l.change_parameters(c, chn as u32, r)
        }
        6 => l.set_max_window(c, 3300),
        _ => l.add(c, Entry::F32, &grid(st, chn, 0, if s > 100 { 9 } else { 31 * s }, 0.1)),
    }
}

pub trait SeedReset {
    fn do_seed(&mut self, c: &mut Ch, b: &Buf) -> Res;
    fn do_reset(&mut self, c: &mut Ch) -> Res;
}
impl SeedReset for Lock<EbuR128> {
    fn do_seed(&mut self, c: &mut Ch, b: &Buf) -> Res {
        self.seed(c, Entry::F64, b)
    }
    fn do_reset(&mut self, c: &mut Ch) -> Res {
        self.reset(c)
    }
}

const SCRIPTS: [[usize; 4]; 6] = [[0, 7, 1, 0], [1, 2, 7, 4], [2, 0, 5, 0], [3, 7, 7, 1], [0, 6, 0, 4], [7, 4, 0, 5]];

/// An operation handed to a worker thread together with the analyser it works on.
type Job = Box<dyn FnOnce() + Send>;

struct Worker {
    tx: Sender<Job>,
    rx: Receiver<Result<(), String>>,
}

thread_local! {
    // worker threads of this explorer thread
    static WORKERS: std::cell::RefCell<Vec<Worker>> = const { std::cell::RefCell::new(Vec::new()) };
}

fn spawn() -> Worker {
    let (tx, jobs) = channel::<Job>();
    let (done, rx) = channel();
    std::thread::spawn(move || {
        for j in jobs {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j)).map_err(|_| last_panic());
            if done.send(r).is_err() {
                break;
            }
        }
    });
    Worker { tx, rx }
}

/// Runs `f` on worker thread `t` and waits for it: the scheduler decides who runs next.
fn on_thread(t: usize, f: Job) -> Res {
    WORKERS.with(|w| {
        let mut w = w.borrow_mut();
        while w.len() <= t {
            w.push(spawn());
        }
        w[t].tx.send(f).map_err(|_| "worker gone".to_string())?;
        w[t].rx.recv().map_err(|_| "worker gone".to_string())?
    })
}

/// Makes the one owner of a pointer movable; the hand-off is a channel round trip.
struct Move<T>(*mut T);
unsafe impl<T> Send for Move<T> {}
impl<T> Move<T> {
    fn get(&self) -> *mut T {
        self.0
    }
}

// Whether the type is Send/Sync, decided at compile time without failing to build.
struct Probe<T>(std::marker::PhantomData<T>);
trait NotSend {
    const SEND: bool = false;
}
trait NotSync {
    const SYNC: bool = false;
}
impl<T> NotSend for Probe<T> {}
impl<T> NotSync for Probe<T> {}
impl<T: Send> Probe<T> {
    const SEND: bool = true;
}
impl<T: Sync> Probe<T> {
    const SYNC: bool = true;
}

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let len = if t { 4 } else { 3 };
    v.push(space(
        "interleavings",
        format!("3 analysers x scripts of {} operations (6 scripts each, first fixed per variant) x {} configurations: every interleaving on one thread; model comparison of the touched analyser after every step and of all at the end", len, VARIANTS),
        move |c| {
            let var = c.pick(VARIANTS);
            let n = 3;
            let sc: Vec<usize> = if var == 3 {
                let x = c.pick(3);
                (0..n).map(|i| (x + i) % 6).collect()
            } else if t {
                let x = c.pick(6);
                let y = c.pick(6);
                vec![x, y, (x + y + 1) % 6]
            } else {
                let x = c.pick(6);
                vec![x, (x + 1 + x / 3) % 6, (x + 4) % 6]
            };
            let len = if var == 3 { 2 } else { len };
            let mut l = vec![];
            for i in 0..n {
                let (ch, rate, mode) = config_of(i, var);
                let mut x = Lock::rust(ch, rate, mode)?.windows(&WIN);
                x.m.hash = mix(x.m.hash, 9000 + i as u64);
                l.push(x);
            }
            let mut done = vec![0usize; n];
            for _ in 0..n * len {
                let open: Vec<usize> = (0..n).filter(|i| done[*i] < len).collect();
                let i = c.of(&open);
                let k = SCRIPTS[sc[i]][done[i]];
                c.say(|| format!("analyser {}: operation {}", i, k));
                op(&mut l[i], c, i, k, done[i]).map_err(|e| format!("analyser {}: {}", i, e))?;
                done[i] += 1;
            }
            let h = l.iter().fold(1, |h, x| mix(h, x.m.hash));
            c.state(h);
            for (i, x) in l.iter().enumerate() {
                x.check(c).map_err(|e| format!("analyser {} in the end: {}", i, e))?;
            }
            Ok(())
        },
    ));
    v.push(space(
        "two-long-scripts",
        format!("2 analysers x all pairs of the 6 scripts x {} configurations: every interleaving of 4 + 4 operations, queries of both after every step", VARIANTS - 1),
        move |c| {
            let var = c.pick(VARIANTS - 1);
            let sc = [c.pick(6), c.pick(6)];
            let mut l = vec![];
            for i in 0..2 {
                let (ch, rate, mode) = config_of(i, var);
                l.push(Lock::rust(ch, rate, mode)?.windows(&WIN));
            }
            let mut done = [0usize; 2];
            for _ in 0..8 {
                let open: Vec<usize> = (0..2).filter(|i| done[*i] < 4).collect();
                let i = c.of(&open);
                op(&mut l[i], c, i, SCRIPTS[sc[i]][done[i]], done[i]).map_err(|e| format!("analyser {}: {}", i, e))?;
                done[i] += 1;
                if c.fresh() {
                    l[1 - i].check(c).map_err(|e| format!("analyser {} after an operation on the other: {}", 1 - i, e))?;
                }
            }
            Ok(())
        },
    ));
    v.push(space(
        "creation-orders",
        "4 analysers of different rates, channels and modes: every order of creation, with audio in creation order or at the end, others dropped before or after".to_string(),
        move |c| {
            let cf = [(2u32, 30u32, NOHIST), (1, 8000, ALL), (6, 34, I), (2, 48000, TP)];
            let mut left = vec![0usize, 1, 2, 3];
            let late = c.flag();
            let drop_first = c.flag();
            let mut l = vec![];
            let mut h = late as u64;
            while !left.is_empty() {
                let k = c.pick(left.len());
                let i = left.remove(k);
                h = mix(h, i as u64);
                let (ch, rate, mode) = cf[i];
                let mut x = Lock::rust(ch, rate, mode)?.windows(&[1, 100]);
                if !late {
                    let n = x.m.s100 * 5;
                    x.add(c, Entry::I16, &grid(771 + i as u64, ch as usize, 0, n, 0.5))?;
                }
                l.push((i, x));
            }
            if drop_first && !late {
                l.remove(0);
            }
            for (i, x) in &mut l {
                let (n, ch) = (x.m.s100 * 5 + 1, x.m.channels);
                x.add(c, Entry::F32, &grid(781 + *i as u64, ch, 0, n, 0.6))?;
            }
            c.state(h);
            for (_, x) in &l {
                x.check(c)?;
            }
            Ok(())
        },
    ));
    v.push(space(
        "threads",
        "2 analysers x 3 operations each (6 scripts) x 2 configurations: every interleaving x every assignment of the operations to 2 worker threads (and of the final queries), run on real threads one at a time".to_string(),
        move |c| {
            let var = c.of(&[1usize, 2]);
            let x = c.pick(if t { 6 } else { 3 });
            let sc = [x, (x + 1) % 6];
            let mut l = vec![];
            for i in 0..2 {
                let (ch, rate, mode) = config_of(i, var);
                l.push(Lock::rust(ch, rate, mode)?.windows(&WIN));
            }
            let mut done = [0usize; 2];
            let mut scratch = Counters::default();
            for _ in 0..6 {
                let open: Vec<usize> = (0..2).filter(|i| done[*i] < 3).collect();
                let i = c.of(&open);
                let th = c.pick(2);
                let k = SCRIPTS[sc[i]][done[i]];
                c.say(|| format!("thread {}: analyser {}: operation {}", th, i, k));
                let p = Move(&mut l[i] as *mut Lock<EbuR128>);
                let out = std::sync::Arc::new(std::sync::Mutex::new(Ok(())));
                let (o, step) = (out.clone(), done[i]);
                let cs = Move(&mut scratch as *mut Counters);
                on_thread(
                    th,
                    Box::new(move || {
                        // the explorer thread waits for us: exclusive access
                        let l = unsafe { &mut *p.get() };
                        let ctr = unsafe { &mut *cs.get() };
                        let r = op_detached(l, ctr, i, k, step);
                        *o.lock().unwrap() = r;
                    }),
                )?;
                out.lock().unwrap().clone().map_err(|e| format!("analyser {} on thread {}: {}", i, th, e))?;
                done[i] += 1;
                let h = mix(mix(l[0].m.hash, l[1].m.hash), th as u64);
                c.state(h);
                c.checked();
            }
            for x in &l {
                x.check(c)?;
            }
            Ok(())
        },
    ));
    v.push(space(
        "preempted-everywhere",
        format!("{} x {} operations (adds within and across blocks, seeding, reset, reconfiguration, queries, creation) of two analysers on two threads with different floating-point environments, {} pairings of configurations: the second thread makes its operation (each time on an equal analyser) between every two machine instructions of the first; all results bit for bit as alone", OPS, OPS, PAIRINGS),
        move |c| {
            let pairing = c.pick(PAIRINGS);
            // (the 96 kHz analyser without the operations that clear or allocate its large buffer)
            let ka = if pairing == 3 { c.of(&[0usize, 1, 2, 3, 5, 6, 9, 11]) } else { c.pick(OPS) };
            let kb = c.pick(OPS);
            everywhere(c, pairing, ka, kb)
        },
    ));
    for (name, two) in [("preemption-points", false), ("preemption-pairs", true)] {
        if two && !t {
            continue;
        }
        let (max, of) = if two { (500u64, 64usize) } else if t { (1300, 16) } else { (450, 4) };
        let (na, nb) = if two { (4, 3) } else { (OPS, if t { 5 } else { 2 }) };
        let what = if two {
            "every pair of preemption points (first operation until instruction k, second until its instruction m, rest of the first, rest of the second)"
        } else {
            "every single preemption point (first operation until instruction k, all of the second, rest of the first)"
        };
        v.push(space(
            name,
            format!("{} x {} operations of two analysers on two threads: {}, for the operations of up to {} machine instructions; all results bit for bit as alone", na, nb, what, max),
            move |c| {
                let pairing = if two { 2 } else if t { c.pick(PAIRINGS) } else { c.of(&[0usize, 2]) };
                let ka = if two { c.of(&[0usize, 2, 4, 9]) } else { c.pick(OPS) };
                let kb = c.of(&[0usize, 2, 3, 4, 8][..nb]);
                let part = c.pick(of) as u64;
                preempt(c, pairing, ka, kb, part, of as u64, two, max)
            },
        ));
    }
    v.push(space(
        "shared-preemptions",
        "one shared analyser in 2 states, 2 modes: each query on one thread with each query made on another thread between every two of its machine instructions: results bit for bit as alone".to_string(),
        move |c| {
            let n = c.of(&[14usize, 100]);
            let mode = c.of(&[NOHIST, ALL]);
            let a = c.pick(super::c14::QUERIES);
            let b = if t { c.pick(super::c14::QUERIES) } else { c.of(&[1usize, 2, 5, 6, 7, 8, 12, 14]) };
            let mut s = EbuR128::new(2, 30, mode_of(mode)).unwrap();
            s.add(Entry::F64, &wide(791, 2, 0, n, 0.5)).unwrap();
            let s = std::sync::Arc::new(s);
            let solo = [query_bits(&s, a), query_bits(&s, b)];
            with_partner(|p| {
                let bad = std::sync::Arc::new(std::sync::Mutex::new(None));
                let (o, s2, want) = (bad.clone(), s.clone(), solo[1]);
                let mut i = 0u64;
                let (got, runs, _) = crate::step::everywhere(p, || query_bits(&s, a), Box::new(move || {
                    i += 1;
                    let r = query_bits(&s2, b);
                    if r != want {
                        o.lock().unwrap().get_or_insert((i, r));
                    }
                }));
                for k in 0..runs {
                    c.state(mix(mix(n as u64, mode as u64), ((a * 64 + b) as u64) << 32 | k));
                }
                c.checked();
                if got != solo[0] {
                    return Err(format!("query {} interrupted at every instruction by query {}: {:?} instead of {:?}", a, b, got, solo[0]));
                }
                if let Some((i, r)) = *bad.lock().unwrap() {
                    return Err(format!("query {} made while query {} is at instruction {}: {:?} instead of {:?}", b, a, i, r, solo[1]));
                }
                Ok(())
            })
        },
    ));
    v.push(space(
        "shared-queries",
        "analysers in 5 states x 2 modes: each query is made by 4 threads at once on a shared analyser together with every other query (all pairs); results equal those of one thread. EbuR128 is Send and Sync".to_string(),
        move |c| {
            if !Probe::<EbuR128>::SEND || !Probe::<EbuR128>::SYNC {
                return Err(format!("EbuR128 is Send: {}, Sync: {}", Probe::<EbuR128>::SEND, Probe::<EbuR128>::SYNC));
            }
            let mode = c.of(&[NOHIST, ALL]);
            let n = c.of(&[0usize, 5, 14, 100, 400]);
            let a = c.pick(super::c14::QUERIES);
            let mut s = EbuR128::new(2, 30, mode_of(mode)).unwrap();
            s.add(Entry::F64, &wide(791, 2, 0, n, 0.5)).unwrap();
            let solo: Vec<R<f64>> = (0..super::c14::QUERIES).map(|q| super::c14::query(&s, q, 1)).collect();
            c.state(mix(mode as u64, (n * 64 + a) as u64));
            let bar = Barrier::new(4);
            let p = Move(&mut s as *mut EbuR128);
            let mut out = vec![];
            std::thread::scope(|sc| {
                let hs: Vec<_> = (0..4usize)
                    .map(|t| {
                        let (bar, solo, p) = (&bar, &solo, Move(p.get()));
                        sc.spawn(move || -> Res {
                            let s: &EbuR128 = unsafe { &*p.get() };
                            bar.wait();
                            for b in 0..super::c14::QUERIES {
                                let q = if t % 2 == 0 { a } else { b };
                                let r = super::c14::query(s, q, 1);
                                let ok = match (r, solo[q]) {
                                    (Ok(x), Ok(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
                                    (x, y) => x == y,
                                };
                                if !ok {
                                    return Err(format!("query {} made concurrently gave {:?} instead of {:?}", q, r, solo[q]));
                                }
                            }
                            Ok(())
                        })
                    })
                    .collect();
                for h in hs {
                    out.push(h.join().unwrap_or_else(|_| Err("panic in a concurrent query".into())));
                }
            });
            c.checked();
            for r in out {
                r?;
            }
            Ok(())
        },
    ));
    v
}

/// `op` on another thread, with a choice-free context.
fn op_detached(l: &mut Lock<EbuR128>, ctr: &mut Counters, i: usize, k: usize, step: usize) -> Res {
    let prefix: [u32; 0] = [];
    let mut c = Ch::detached(&prefix, ctr);
    op(l, &mut c, i, k, step)
}

fn query_bits(s: &EbuR128, q: usize) -> (u64, R) {
    match super::c14::query(s, q, 1) {
        Ok(v) => (v.to_bits(), Ok(())),
        Err(e) => (0, Err(e)),
    }
}

thread_local! {
    static PARTNER: std::cell::RefCell<Option<crate::step::Partner>> = const { std::cell::RefCell::new(None) };
}

/// Lends this explorer thread's second thread.
fn with_partner(f: impl FnOnce(&crate::step::Partner) -> Res) -> Res {
    let p = PARTNER.with(|p| p.borrow_mut().take()).unwrap_or_else(crate::step::Partner::spawn);
    let r = f(&p);
    PARTNER.with(|q| *q.borrow_mut() = Some(p));
    r
}

const OPS: usize = 12;
const PAIRINGS: usize = 4;

/// Small operations whose every instruction is a preemption point.
fn small_op(e: &mut EbuR128, k: usize, x: &[f64]) -> Res {
    let c = e.channels() as usize;
    let r = match k {
        0 => e.add_frames_f64(&x[..c]),
        1 => e.add_frames_planar_f64(&[&x[..2], &x[2..4], &x[4..6], &x[6..8]][..c.min(4)]),
        2 => e.seed_frames_f64(&x[..c]),
        // completes a 100 ms block (see `prepared`)
        3 => e.add_frames_f64(&x[..2 * c]),
        4 => {
            e.reset();
            Ok(())
        }
        5 => e.loudness_global().map(|_| ()),
        6 => e.loudness_range().map(|_| ()),
        7 => e.set_max_window(3300),
        8 => e.change_parameters(c as u32 + 1, 34),
        9 => e.set_channel(0, ebur128::Channel::Mp060),
        10 => EbuR128::new(c as u32, 34, e.mode()).map(|n| *e = n),
        _ => EbuR128::loudness_global_multiple([&*e, &*e].into_iter()).map(|_| ()),
    };
    // the outcome of each is part of what is compared
    match r {
        Ok(()) => Ok(()),
        Err(x) => Err(format!("{:?}", x)),
    }
}

/// An analyser with some history, two frames before the end of a block.
fn prepared(i: usize, pairing: usize) -> EbuR128 {
    let (ch, rate, mode) = [
        [(1, 30, ALL), (2, 34, NOHIST)],
        [(2, 30, NOHIST), (3, 30, ALL)],
        [(1, 30, M), (1, 30, M)],
        [(4, 96000, M | TP), (5, 30, I | LRA)],
    ][pairing][i];
    let mut e = EbuR128::new(ch, rate, mode_of(mode)).unwrap();
    let s = (rate as usize + 5) / 10;
    let frames = if rate > 100 { 4 * s - 2 } else { 31 * s - 2 };
    e.add(Entry::F64, &wide(801 + i as u64, ch as usize, 0, frames.min(200), 0.3)).unwrap();
    e
}

type Seen = (Res, Vec<(String, R<u64>)>, u32, usize, usize);

fn observe(e: &EbuR128, r: Res, csr: u32) -> Seen {
    let v = results(e, &WIN).into_iter().map(|(n, v)| (n, v.map(f64::to_bits))).collect();
    (r, v, csr & 0xffc0, e.max_window(), e.channel_map().len())
}

fn differ(a: &Seen, b: &Seen) -> String {
    if a.0 != b.0 {
        return format!("outcome {:?} instead of {:?}", a.0, b.0);
    }
    if a.2 != b.2 {
        return format!("floating-point control state {:#x} instead of {:#x}", a.2, b.2);
    }
    for (x, y) in a.1.iter().zip(&b.1) {
        if x != y {
            return format!("{} = {:?} instead of {:?}", x.0, x.1.map(f64::from_bits), y.1.map(f64::from_bits));
        }
    }
    "different configuration".into()
}

const CSR: [u32; 2] = [0x1f80, 0x9fc0];

fn run(i: usize, k: usize, e: &mut EbuR128, x: &[f64]) -> (Res, u32) {
    crate::sys::set_mxcsr(CSR[i]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| small_op(e, k, x))).unwrap_or_else(|_| Err(last_panic()));
    let csr = crate::sys::mxcsr();
    crate::sys::set_mxcsr(0x1f80);
    (r, csr)
}

fn input() -> Vec<f64> {
    (0..16).map(|i| ((i * 37 % 16) as f64 - 7.5) / 9.0).collect()
}

fn solo(pairing: usize, k: [usize; 2]) -> Vec<Seen> {
    let x = input();
    (0..2)
        .map(|i| {
            let mut e = prepared(i, pairing);
            let (r, csr) = run(i, k[i], &mut e, &x);
            observe(&e, r, csr)
        })
        .collect()
}

fn everywhere(c: &mut Ch, pairing: usize, ka: usize, kb: usize) -> Res {
    let solo = solo(pairing, [ka, kb]);
    with_partner(|p| {
        let x = input();
        let bad: std::sync::Arc<std::sync::Mutex<Option<(u64, Seen)>>> = Default::default();
        let (o, y, want) = (bad.clone(), x.clone(), solo[1].clone());
        let mut a = prepared(0, pairing);
        let mut i = 0u64;
        let ((ra, csra), runs, _) = crate::step::everywhere(p, || run(0, ka, &mut a, &x), Box::new(move || {
            i += 1;
            let mut b = prepared(1, pairing);
            let (r, csr) = run(1, kb, &mut b, &y);
            let seen = observe(&b, r, csr);
            if seen != want {
                o.lock().unwrap().get_or_insert((i, seen));
            }
        }));
        for k in 0..runs {
            c.state(mix(mix(pairing as u64, (ka * 64 + kb) as u64), k));
        }
        c.checked();
        let seen = observe(&a, ra, csra);
        if seen != solo[0] {
            return Err(format!("operation {} with operation {} on another thread between every two of its instructions: {}", ka, kb, differ(&seen, &solo[0])));
        }
        if let Some((i, seen)) = &*bad.lock().unwrap() {
            return Err(format!("operation {} on another thread while operation {} is at instruction {}: {}", kb, ka, i, differ(seen, &solo[1])));
        }
        Ok(())
    })
}

#[allow(clippy::too_many_arguments)]
fn preempt(c: &mut Ch, pairing: usize, ka: usize, kb: usize, part: u64, parts: u64, two: bool, max: u64) -> Res {
    let solo = solo(pairing, [ka, kb]);
    let x = input();
    {
        let mut e = prepared(0, pairing);
        let (_, n) = crate::step::count(|| run(0, ka, &mut e, &x));
        let mut e = prepared(1, pairing);
        let (_, m) = crate::step::count(|| run(1, kb, &mut e, &x));
        if n > max || (two && m > max) {
            return Ok(());
        }
    }
    with_partner(|p| {
        let mut k = part + 1;
        loop {
            let mut m = if two { 1 } else { 0 };
            let reached = loop {
                let mut a = prepared(0, pairing);
                let mut b = Some(prepared(1, pairing));
                let out: std::sync::Arc<std::sync::Mutex<Option<Seen>>> = Default::default();
                let (o, y) = (out.clone(), x.clone());
                let job = Box::new(move || {
                    if let Some(mut b) = b.take() {
                        let (r, csr) = run(1, kb, &mut b, &y);
                        *o.lock().unwrap() = Some(observe(&b, r, csr));
                    }
                });
                let r = crate::step::schedule(p, || run(0, ka, &mut a, &x), job, k, m);
                c.state(mix(mix(pairing as u64, (ka * 64 + kb) as u64), k << 32 | m));
                c.checked();
                let (ra, csra) = r.a;
                let seen = observe(&a, ra, csra);
                let how = || format!("operation {} preempted at instruction {} by operation {}{}", ka, k, kb, if m > 0 { format!(" (until its instruction {})", m) } else { String::new() });
                if seen != solo[0] {
                    return Err(format!("{}: {}", how(), differ(&seen, &solo[0])));
                }
                let seen = out.lock().unwrap().take().ok_or("second operation lost")?;
                if seen != solo[1] {
                    return Err(format!("{}: the second one: {}", how(), differ(&seen, &solo[1])));
                }
                if !two || !r.reached || !r.partner_preempted {
                    break r.reached;
                }
                m += 1;
            };
            if !reached {
                return Ok(());
            }
            k += parts;
        }
    })
}

/// Development helper: instructions per operation and query.
pub fn step_counts() {
    let x = input();
    for pairing in 0..PAIRINGS {
        for k in 0..OPS {
            let mut e = prepared(0, pairing);
            let t = std::time::Instant::now();
            let (_, n) = crate::step::count(|| small_op(&mut e, k, &x));
            println!("pairing {} op {}: {} instructions, {:?}", pairing, k, n, t.elapsed());
        }
    }
    for n in [14usize, 100] {
        let mut s = EbuR128::new(2, 30, mode_of(ALL)).unwrap();
        s.add(Entry::F64, &wide(791, 2, 0, n, 0.5)).unwrap();
        for q in 0..super::c14::QUERIES {
            let (_, k) = crate::step::count(|| super::c14::query(&s, q, 1));
            println!("query {} after {}: {} instructions", q, n, k);
        }
    }
}
