//! The enumerated spaces. Each is a product of finite alphabets, numbered 0..count.
use crate::Out;
use ebur128::{Channel, EbuR128, Error, Mode};
use std::os::raw::{c_int, c_uint, c_ulong};

pub struct Space {
    pub name: &'static str,
    pub bound: String,
    /// "mem": every access, validity and aliasing checked; "val": accesses checked only (several times as fast).
    pub class: &'static str,
    pub count: usize,
    pub run: Box<dyn Fn(usize, &mut Out)>,
}

/// Mixed-radix digits of an index.
struct Dig(usize);
impl Dig {
    fn of<T: Copy>(&mut self, a: &[T]) -> T {
        let r = a[self.0 % a.len()];
        self.0 /= a.len();
        r
    }
    fn n(&mut self, n: usize) -> usize {
        let r = self.0 % n;
        self.0 /= n;
        r
    }
}

fn hash(a: u64, b: u64) -> u64 {
    let mut x = a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.wrapping_mul(0xC2B2_AE3D_27D4_EB4F) ^ 0x1234_5678;
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 32;
    x
}
/// A multiple of 2^-15 in -1..1 (exact in every format).
fn val(salt: u64, c: usize, i: usize) -> i16 {
    ((hash(salt, (c as u64) << 32 | i as u64) >> 20) & 0xFFFF) as u16 as i16
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fmt {
    I16,
    I32,
    F32,
    F64,
}
use Fmt::*;
const FMTS: [Fmt; 4] = [I16, I32, F32, F64];

fn code(r: Result<(), Error>) -> i64 {
    match r {
        Ok(()) => 0,
        Err(Error::NoMem) => 1,
        Err(Error::InvalidMode) => 2,
        Err(Error::InvalidChannelIndex) => 3,
    }
}

/// Samples as exactly sized heap allocations, so that an access beyond them is seen.
macro_rules! feed {
    ($e:expr, $ch:expr, $n:expr, $salt:expr, $conv:expr, $add:ident, $padd:ident, $seed:ident, $pseed:ident, $planar:expr, $seeding:expr) => {{
        let conv = $conv;
        if $planar {
            let rows: Vec<Box<[_]>> = (0..$ch).map(|c| (0..$n).map(|i| conv(val($salt, c, i))).collect()).collect();
            let r: Vec<&[_]> = rows.iter().map(|r| &r[..]).collect();
            if $seeding { $e.$pseed(&r) } else { $e.$padd(&r) }
        } else {
            let b: Box<[_]> = (0..$n * $ch).map(|k| conv(val($salt, k % $ch, k / $ch))).collect();
            if $seeding { $e.$seed(&b) } else { $e.$add(&b) }
        }
    }};
}
#[allow(clippy::too_many_arguments)]
fn feed(e: &mut EbuR128, ch: usize, n: usize, salt: u64, f: Fmt, planar: bool, seeding: bool) -> Result<(), Error> {
    match f {
        I16 => feed!(e, ch, n, salt, |v: i16| v, add_frames_i16, add_frames_planar_i16, seed_frames_i16, seed_frames_planar_i16, planar, seeding),
        I32 => feed!(e, ch, n, salt, |v: i16| (v as i32) << 16, add_frames_i32, add_frames_planar_i32, seed_frames_i32, seed_frames_planar_i32, planar, seeding),
        F32 => feed!(e, ch, n, salt, |v: i16| v as f32 / 32768.0, add_frames_f32, add_frames_planar_f32, seed_frames_f32, seed_frames_planar_f32, planar, seeding),
        F64 => feed!(e, ch, n, salt, |v: i16| v as f64 / 32768.0, add_frames_f64, add_frames_planar_f64, seed_frames_f64, seed_frames_planar_f64, planar, seeding),
    }
}

fn l(o: &mut Out, r: Result<f64, Error>) {
    match r {
        Ok(v) => o.l(v),
        Err(e) => o.n(100 + code(Err(e))),
    }
}
fn p(o: &mut Out, r: Result<f64, Error>) {
    match r {
        Ok(v) => o.p(v),
        Err(e) => o.n(100 + code(Err(e))),
    }
}

/// Everything an analyser tells about itself.
fn observe(e: &EbuR128, o: &mut Out) {
    l(o, e.loudness_momentary());
    l(o, e.loudness_shortterm());
    l(o, e.loudness_window(100));
    l(o, e.loudness_global());
    l(o, e.relative_threshold());
    l(o, e.loudness_range());
    match e.gating_block_count_and_energy() {
        None => o.n(-1),
        Some((c, en)) => {
            o.n(c as i64);
            o.p(en);
        }
    }
    for c in 0..e.channels() + 1 {
        p(o, e.sample_peak(c));
        p(o, e.prev_sample_peak(c));
        p(o, e.true_peak(c));
        p(o, e.prev_true_peak(c));
    }
    o.n(e.channels() as i64);
    o.n(e.rate() as i64);
    // usize::MAX stands for no limit
    o.n(if e.max_history() == usize::MAX { -1 } else { e.max_history() as i64 });
    o.n(e.max_window() as i64);
    o.n(e.mode().bits() as i64);
    for t in e.channel_map() {
        o.n(*t as i64);
    }
}

pub const NOPS: usize = 18;
pub fn apply(e: &mut EbuR128, op: usize, salt: u64, o: &mut Out) {
    let ch = e.channels() as usize;
    let r = match op {
        0 => feed(e, ch, 1, salt, F64, false, false),
        1 => feed(e, ch, 5, salt, I16, true, false),
        2 => feed(e, ch, 13, salt, F32, false, false),
        3 => feed(e, ch, 4, salt, I32, true, true),
        4 => {
            e.reset();
            Ok(())
        }
        5 => e.change_parameters(if ch == 2 { 5 } else { 2 }, e.rate()),
        6 => e.change_parameters(ch as u32, if e.rate() == 30 { 34 } else { 30 }),
        7 => e.set_max_window(3450),
        8 => e.set_max_window(0),
        9 => e.set_max_history(3000),
        10 => e.set_channel(ch as u32 - 1, Channel::LeftSurround),
        11 => feed(e, ch, 101, salt, I32, false, false),
        12 => feed(e, ch, 0, salt, F32, true, false),
        13 => e.add_frames_planar_f64(&[&[0.5, 0.25][..], &[0.5][..]]),
        14 => {
            let m: Vec<Channel> = (0..ch).map(|c| if c % 2 == 0 { Channel::Unused } else { Channel::Mp060 }).collect();
            e.set_channel_map(&m)
        }
        15 => {
            for w in [0u32, 1, 33, 399, 400, 3000, 3450, 4000, u32::MAX] {
                if w > 33 {
                    l(o, e.loudness_window(w));
                } else {
                    // less than a frame: 0/0 is not specified
                    let _ = e.loudness_window(w);
                }
            }
            let s = format!("{:?}", e);
            assert!(!s.is_empty());
            Ok(())
        }
        16 => e.set_channel(ch as u32, Channel::Left),
        _ => feed(e, ch, 3, salt, F32, true, true),
    };
    o.n(code(r));
    o.op();
}

fn calls(name: &'static str, class: &'static str, depth: u32, modes: &'static [u8], chans: &'static [u32]) -> Space {
    Space {
        name,
        class,
        bound: format!("all sequences of {} operations over {} (adds and seeds in all formats, reset, reconfigurations, queries, invalid calls) x modes {:?} x channels {:?}, all results compared after every operation", depth, NOPS, modes, chans),
        count: NOPS.pow(depth) * modes.len() * chans.len(),
        run: Box::new(move |i, o| {
            let mut d = Dig(i);
            let m = Mode::from_bits(d.of(modes)).unwrap();
            let ch = d.of(chans);
            let mut e = EbuR128::new(ch, 30, m).unwrap();
            for k in 0..depth {
                apply(&mut e, d.n(NOPS), 40 + k as u64, o);
                observe(&e, o);
            }
        }),
    }
}

#[repr(C)]
pub struct State {
    _p: [u8; 0],
}
use ebur128 as _;
extern "C" {
    fn ebur128_get_version(a: *mut c_int, b: *mut c_int, c: *mut c_int);
    fn ebur128_init(c: c_uint, r: c_ulong, m: c_int) -> *mut State;
    fn ebur128_destroy(s: *mut *mut State);
    fn ebur128_set_channel(s: *mut State, c: c_uint, v: c_int) -> c_int;
    fn ebur128_change_parameters(s: *mut State, c: c_uint, r: c_ulong) -> c_int;
    fn ebur128_set_max_window(s: *mut State, w: c_ulong) -> c_int;
    fn ebur128_set_max_history(s: *mut State, h: c_ulong) -> c_int;
    fn ebur128_add_frames_short(s: *mut State, d: *const i16, n: usize) -> c_int;
    fn ebur128_add_frames_int(s: *mut State, d: *const i32, n: usize) -> c_int;
    fn ebur128_add_frames_float(s: *mut State, d: *const f32, n: usize) -> c_int;
    fn ebur128_add_frames_double(s: *mut State, d: *const f64, n: usize) -> c_int;
    fn ebur128_loudness_global(s: *mut State, o: *mut f64) -> c_int;
    fn ebur128_loudness_global_multiple(s: *mut *mut State, n: usize, o: *mut f64) -> c_int;
    fn ebur128_loudness_momentary(s: *mut State, o: *mut f64) -> c_int;
    fn ebur128_loudness_shortterm(s: *mut State, o: *mut f64) -> c_int;
    fn ebur128_loudness_window(s: *mut State, w: c_ulong, o: *mut f64) -> c_int;
    fn ebur128_loudness_range(s: *mut State, o: *mut f64) -> c_int;
    fn ebur128_loudness_range_multiple(s: *mut *mut State, n: usize, o: *mut f64) -> c_int;
    fn ebur128_sample_peak(s: *mut State, c: c_uint, o: *mut f64) -> c_int;
    fn ebur128_prev_sample_peak(s: *mut State, c: c_uint, o: *mut f64) -> c_int;
    fn ebur128_true_peak(s: *mut State, c: c_uint, o: *mut f64) -> c_int;
    fn ebur128_prev_true_peak(s: *mut State, c: c_uint, o: *mut f64) -> c_int;
    fn ebur128_relative_threshold(s: *mut State, o: *mut f64) -> c_int;
}

/// What a C caller knows: the handle and the channel count (the second field).
struct C {
    s: *mut State,
}
impl C {
    fn channels(&self) -> usize {
        unsafe { *(self.s as *const u32).add(1) as usize }
    }
}
const NC: usize = 20;
unsafe fn c_apply(c: &mut C, other: *mut State, op: usize, salt: u64, o: &mut Out) {
    let s = c.s;
    let ch = c.channels();
    let mut out = f64::NAN;
    let get = |o: &mut Out, r: c_int, out: f64| {
        o.n(r as i64);
        if r == 0 {
            o.l(out);
        }
    };
    match op {
        0..=3 => {
            let n = [1, 5, 13, 2][op];
            let b: Box<[i16]> = (0..n * ch).map(|k| val(salt, k % ch, k / ch)).collect();
            let r = match op {
                0 => ebur128_add_frames_short(s, b.as_ptr(), n),
                1 => {
                    let b: Box<[i32]> = b.iter().map(|v| (*v as i32) << 16).collect();
                    ebur128_add_frames_int(s, b.as_ptr(), n)
                }
                2 => {
                    let b: Box<[f32]> = b.iter().map(|v| *v as f32 / 32768.0).collect();
                    ebur128_add_frames_float(s, b.as_ptr(), n)
                }
                _ => {
                    let b: Box<[f64]> = b.iter().map(|v| *v as f64 / 32768.0).collect();
                    ebur128_add_frames_double(s, b.as_ptr(), n)
                }
            };
            o.n(r as i64);
        }
        4 => {
            // nothing to read
            o.n(ebur128_add_frames_short(s, std::ptr::null(), 0) as i64);
            o.n(ebur128_add_frames_double(s, std::ptr::null(), 0) as i64);
        }
        5 => o.n(ebur128_set_channel(s, ch as c_uint - 1, 6) as i64),
        6 => {
            for v in [-1, 32, 7, i32::MIN, i32::MAX, 31, 256, 0x10001] {
                o.n(ebur128_set_channel(s, 0, v) as i64);
            }
        }
        7 => o.n(ebur128_change_parameters(s, if ch == 2 { 3 } else { 2 }, 30) as i64),
        8 => o.n(ebur128_change_parameters(s, ch as c_uint, 34) as i64),
        9 => o.n(ebur128_change_parameters(s, 0, 30) as i64),
        10 => o.n(ebur128_set_max_window(s, 3450) as i64),
        11 => o.n(ebur128_set_max_history(s, 3000) as i64),
        12 => {
            let r = ebur128_loudness_global(s, &mut out);
            get(o, r, out);
            let r = ebur128_relative_threshold(s, &mut out);
            get(o, r, out);
        }
        13 => {
            let r = ebur128_loudness_momentary(s, &mut out);
            get(o, r, out);
            let r = ebur128_loudness_shortterm(s, &mut out);
            get(o, r, out);
            let r = ebur128_loudness_window(s, 200, &mut out);
            get(o, r, out);
        }
        14 => {
            let r = ebur128_loudness_range(s, &mut out);
            get(o, r, out);
        }
        15 | 16 => {
            for k in [0, 1, 2, 3] {
                let mut v: Box<[*mut State]> = [s, other, s][..k].into();
                let q = if k == 0 { std::ptr::null_mut() } else { v.as_mut_ptr() };
                let r = if op == 15 { ebur128_loudness_global_multiple(q, k, &mut out) } else { ebur128_loudness_range_multiple(q, k, &mut out) };
                get(o, r, out);
            }
        }
        17 => {
            for k in [0, ch as c_uint - 1, ch as c_uint, c_uint::MAX] {
                for f in [ebur128_sample_peak, ebur128_prev_sample_peak, ebur128_true_peak, ebur128_prev_true_peak] {
                    let r = f(s, k, &mut out);
                    o.n(r as i64);
                    if r == 0 {
                        o.p(out);
                    }
                }
            }
        }
        18 => {
            // a new life
            ebur128_destroy(&mut c.s);
            o.n(c.s.is_null() as i64);
            ebur128_destroy(&mut c.s);
            c.s = ebur128_init(2, 30, 0x3F);
            o.n(c.s.is_null() as i64);
        }
        _ => {
            let (mut a, mut b, mut d) = (0, 0, 0);
            ebur128_get_version(&mut a, &mut b, &mut d);
            o.n((a * 10000 + b * 100 + d) as i64);
            ebur128_destroy(std::ptr::null_mut());
            let bad = [ebur128_init(0, 30, 1), ebur128_init(65, 30, 1), ebur128_init(1, 0, 1), ebur128_init(1, 30, 0), ebur128_init(c_uint::MAX, 30, 1)];
            o.n(bad.iter().filter(|p| p.is_null()).count() as i64);
        }
    }
    o.op();
}
fn c_calls(class: &'static str, depth: u32, modes: &'static [c_int]) -> Space {
    Space {
        name: "c-calls",
        class,
        bound: format!("all sequences of {} calls over {} groups of C calls (every entry point; exactly sized buffers, NULL with length 0, invalid channel types and counts, arrays of 0..3 states, destroy and reuse) x modes {:?}", depth, NC, modes),
        count: NC.pow(depth) * modes.len(),
        run: Box::new(move |i, o| unsafe {
            let mut d = Dig(i);
            let m = d.of(modes);
            let mut c = C { s: ebur128_init(3, 30, m) };
            let mut other = ebur128_init(1, 30, m);
            assert!(!c.s.is_null() && !other.is_null());
            for k in 0..depth {
                c_apply(&mut c, other, d.n(NC), 60 + k as u64, o);
            }
            ebur128_destroy(&mut c.s);
            ebur128_destroy(&mut other);
        }),
    }
}

/// True peak interpolators of every class, through several turns of their ring buffers.
fn interpolators(class: &'static str, layouts: &'static [bool], cuts: Vec<(usize, usize)>) -> Space {
    const CH: [u32; 8] = [1, 2, 3, 4, 5, 6, 8, 9];
    Space {
        name: "interpolators",
        class,
        bound: format!("every interpolator (channels {:?} x 4x/2x oversampling) x planar {:?} x {} pairs of call lengths around the turns of its ring buffer, with a reset or seed in between", CH, layouts, cuts.len()),
        count: CH.len() * layouts.len() * 2 * cuts.len() * 2,
        run: Box::new(move |i, o| {
            let mut d = Dig(i);
            let (planar, ch, rate, (a, b)) = (d.of(layouts), d.of(&CH), d.of(&[30u32, 96000]), d.of(&cuts));
            let between = d.n(2);
            let mut e = EbuR128::new(ch, rate, Mode::TRUE_PEAK).unwrap();
            let n = ch as usize;
            for (k, len) in [a, b, 3].into_iter().enumerate() {
                let r = feed(&mut e, n, len, 70 + k as u64, FMTS[(k + i / layouts.len()) % 4], planar, false);
                o.n(code(r));
                for c in 0..ch {
                    p(o, e.true_peak(c));
                    p(o, e.prev_true_peak(c));
                }
                o.op();
                if k == 0 {
                    if between == 0 {
                        e.reset();
                    } else {
                        o.n(code(feed(&mut e, n, 5, 90, F32, planar, true)));
                    }
                    o.op();
                }
            }
        }),
    }
}

/// Every entry point with buffers of every small length, also those that are not whole frames.
fn buffers(class: &'static str, mode: Mode, maxch: usize, maxlen: usize, rowlen: usize) -> Space {
    Space {
        name: "buffers",
        class,
        bound: format!("every entry point (4 formats x add/seed) with interleaved buffers of every length 0..{} and planar ones of every row count 0..{} x rows of 0..{} frames, equal or one longer, x 1..{} channels, exactly sized", maxlen - 1, maxch + 1, rowlen - 1, maxch),
        count: maxch * 8 * (maxlen + (maxch + 2) * rowlen * 2),
        run: Box::new(move |i, o| {
            let mut d = Dig(i);
            let ch = d.n(maxch) + 1;
            let f = d.of(&FMTS);
            let seeding = d.of(&[false, true]);
            let k = d.0;
            let mut e = EbuR128::new(ch as u32, 30, mode).unwrap();
            macro_rules! go {
                ($t:ty, $conv:expr, $add:ident, $padd:ident, $seed:ident, $pseed:ident) => {
                    if k < maxlen {
                        let b: Box<[$t]> = (0..k).map(|i| $conv(val(5, 0, i))).collect();
                        if seeding { e.$seed(&b) } else { e.$add(&b) }
                    } else {
                        let mut d = Dig(k - maxlen);
                        let rows = d.n(maxch + 2);
                        let len = d.n(rowlen);
                        let uneven = d.n(2);
                        let v: Vec<Box<[$t]>> = (0..rows)
                            .map(|r| (0..len + if r + 1 == rows { uneven } else { 0 }).map(|i| $conv(val(5, r, i))).collect())
                            .collect();
                        let b: Vec<&[$t]> = v.iter().map(|r| &r[..]).collect();
                        if seeding { e.$pseed(&b) } else { e.$padd(&b) }
                    }
                };
            }
            let r = match f {
                I16 => go!(i16, |v: i16| v, add_frames_i16, add_frames_planar_i16, seed_frames_i16, seed_frames_planar_i16),
                I32 => go!(i32, |v: i16| (v as i32) << 16, add_frames_i32, add_frames_planar_i32, seed_frames_i32, seed_frames_planar_i32),
                F32 => go!(f32, |v: i16| v as f32 / 32768.0, add_frames_f32, add_frames_planar_f32, seed_frames_f32, seed_frames_planar_f32),
                F64 => go!(f64, |v: i16| v as f64 / 32768.0, add_frames_f64, add_frames_planar_f64, seed_frames_f64, seed_frames_planar_f64),
            };
            o.n(code(r));
            observe(&e, o);
            o.op();
        }),
    }
}

/// Instances combined, more than fit the inline storage.
fn multiples(class: &'static str, counts: Vec<usize>) -> Space {
    Space {
        name: "multiples",
        class,
        bound: format!("loudness_global_multiple and loudness_range_multiple over {:?} instances x plain/histogram/mixed x some without audio, or the last of a wrong mode", counts),
        count: counts.len() * 3 * 3,
        run: Box::new(move |i, o| {
            let mut d = Dig(i);
            let (n, hist, odd) = (d.of(&counts), d.n(3), d.n(3));
            let v: Vec<EbuR128> = (0..n)
                .map(|k| {
                    let mut m = Mode::I | Mode::LRA;
                    if hist == 1 || hist == 2 && k % 2 == 0 {
                        m |= Mode::HISTOGRAM;
                    }
                    if odd == 2 && k % 3 == 2 && k + 1 == n {
                        m = Mode::S;
                    }
                    let mut e = EbuR128::new(1, 30, m).unwrap();
                    if odd == 0 || k % 3 != 1 {
                        feed(&mut e, 1, 12 + if k == 3 { 80 } else { 0 }, k as u64, F32, false, false).unwrap();
                    }
                    e
                })
                .collect();
            l(o, EbuR128::loudness_global_multiple(v.iter()));
            o.op();
            l(o, EbuR128::loudness_range_multiple(v.iter()));
            o.op();
        }),
    }
}

/// Threads at work on analysers of their own and querying a common one; accesses that race are reported whatever the
/// schedule (happens-before).
fn threads(class: &'static str, all: bool, modes: &'static [u8]) -> Space {
    Space {
        name: "threads",
        class,
        bound: format!("{} of {} operations on two threads with an analyser each, created, used and dropped there, both querying a third one meanwhile, x modes {:?}", if all { "all pairs" } else { "a permutation's pairs" }, NOPS, modes),
        count: if all { NOPS * NOPS } else { NOPS } * modes.len(),
        run: Box::new(move |i, o| {
            let mut d = Dig(i);
            let mode = Mode::from_bits(d.of(modes)).unwrap();
            let a = d.n(NOPS);
            let b = if all { d.n(NOPS) } else { (a * 7 + 3) % NOPS };
            let mut shared = EbuR128::new(1, 30, mode).unwrap();
            feed(&mut shared, 1, 20, 5, F32, false, false).unwrap();
            let work = |op: usize, m: Mode| {
                let mut e = EbuR128::new(2, 30, m).unwrap();
                let mut o = Out::default();
                apply(&mut e, op, 7, &mut o);
                observe(&shared, &mut o);
                observe(&e, &mut o);
                if m.contains(Mode::I) {
                    l(&mut o, EbuR128::loudness_global_multiple([&shared, &e].into_iter()));
                }
                if m.contains(Mode::LRA) {
                    l(&mut o, EbuR128::loudness_range_multiple([&shared, &e].into_iter()));
                }
                o
            };
            let (x, y) = std::thread::scope(|s| {
                let t = s.spawn(|| work(a, mode));
                let u = s.spawn(|| work(b, mode));
                (t.join().unwrap(), u.join().unwrap())
            });
            for w in [x, y] {
                o.toks.extend(w.toks);
                o.op();
            }
        }),
    }
}

/// Windows and rates whose product does not fit 32 bits.
fn large() -> Space {
    // (rate, window): the buffers are small enough for a 32-bit machine, the products are not small
    const W: [(u32, u32); 7] = [(2_822_400, 1600), (1_500_000, 3000), (2_822_400, 3000), (16, 268_500_000), (48000, 90_000), (192_000, 22_400), (96000, 44_740)];
    Space {
        name: "large-windows",
        class: "wasm",
        bound: format!("rate x window just beyond 2^32 and up to twice that: {:?} (Hz, ms); loudness of windows on both sides of 2^32", W),
        count: W.len(),
        run: Box::new(move |i, o| {
            let (rate, w) = W[i];
            // (short-term measurement has a 3 s window from the start)
            let mut e = match EbuR128::new(1, rate, if w == 3000 { Mode::S } else { Mode::M }) {
                Ok(e) => e,
                Err(e) => {
                    o.n(200 + code(Err(e)));
                    o.op();
                    return;
                }
            };
            o.op();
            o.n(code(e.set_max_window(w)));
            o.n(e.max_window() as i64);
            o.op();
            let b = [0.5f32, -0.5, 0.25, 1.0, 0.75, -0.25, 0.5];
            o.n(code(e.add_frames_f32(&b)));
            for x in [400, w / 2, w - 300, w, 2 * w] {
                l(o, e.loudness_window(x));
            }
            o.op();
        }),
    }
}

/// Windows for which some product of sizes is just beyond a multiple of 2^31.
fn products(t: bool) -> Space {
    let chans: &'static [u32] = if t { &[1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 31, 32, 33, 48, 63, 64] } else { &[1, 2, 3, 4, 5, 8, 16, 64] };
    let rates: &'static [u32] = if t { &[16, 30, 1000, 1024, 8000, 16384, 44100, 48000, 96000, 192_000, 705_600, 1 << 20, 2_822_400] } else { &[16, 30, 1000, 1024, 48000, 192_000, 2_822_400] };
    // numerator per frame and millisecond, denominator
    const F: [(bool, bool, u64, u64); 10] = [
        (true, false, 1, 1),
        (true, false, 1, 1000),
        (true, true, 1, 1),
        (true, true, 1, 1000),
        (true, true, 8, 1000),
        (true, false, 8, 1000),
        (false, true, 1, 1),
        (false, true, 8, 1),
        (true, false, 1, 100),
        (true, true, 8, 1),
    ];
    let mult = if t { 8 } else { 4 };
    Space {
        name: "products",
        class: "wasm",
        bound: format!("rates {:?} x channels {:?} x windows for which one of 10 products of rate, window, channels and sample size is 0..400 ms beyond m 2^31, m = 1..{}: loudness_window, and set_max_window (up to 16 MB, thorough 128: used and measured; beyond 4 GB on the 32-bit machine: refused)", rates, chans, mult),
        count: chans.len() * rates.len() * F.len() * mult as usize * 4,
        run: Box::new(move |i, o| {
            let mut d = Dig(i);
            let (c, r, f, m, off) = (d.of(chans), d.of(rates), d.of(&F), d.n(mult as usize) as u64 + 1, d.of(&[0u64, 1, 200, 400]));
            let w = (((m << 31) * f.3).div_ceil(f.2 * if f.0 { r as u64 } else { 1 } * if f.1 { c as u64 } else { 1 }) + off).min(u32::MAX as u64) as u32;
            // an analyser at this rate has buffers of its own
            if r > 200_000 && c > 8 {
                return;
            }
            let mut e = EbuR128::new(c, r, Mode::M).unwrap();
            o.n(code(feed(&mut e, c as usize, 3, 5, F32, false, false)));
            l(o, e.loudness_window(w));
            l(o, e.loudness_window(400));
            o.op();
            let bytes = r as u128 * w as u128 * c as u128 * 8 / 1000;
            if bytes <= if t { 128 } else { 16 } << 20 {
                o.n(code(e.set_max_window(w)));
                o.n(e.max_window() as i64);
                o.n(code(feed(&mut e, c as usize, 3, 5, F32, false, false)));
                for x in [400, w / 2, w] {
                    l(o, e.loudness_window(x));
                }
            } else if bytes > 4 << 30 {
                #[cfg(target_pointer_width = "32")]
                o.n(code(e.set_max_window(w)));
                #[cfg(not(target_pointer_width = "32"))]
                o.n(1);
                o.n(e.max_window() as i64);
                l(o, e.loudness_window(w));
            }
            o.op();
        }),
    }
}

/// Sizes that no 32-bit machine can hold, and every limit.
fn limits() -> Space {
    const R: [u32; 6] = [0, 15, 16, 2_822_400, 2_822_401, u32::MAX];
    const C: [u32; 5] = [0, 1, 64, 65, u32::MAX];
    Space {
        name: "limits",
        class: "wasm",
        bound: format!("rates {:?} x channels {:?}: new and change_parameters (to 64 channels only at the lowest rate); windows and histories of 2^32 - 1 ms", R, C),
        count: R.len() * C.len(),
        run: Box::new(move |i, o| {
            let mut d = Dig(i);
            let (r, c) = (d.of(&R), d.of(&C));
            if r > 1_000_000 && c == 64 {
                return;
            }
            let x = EbuR128::new(c, r, Mode::M).map(|_| ());
            o.n(code(x));
            o.op();
            let mut e = EbuR128::new(2, 30, Mode::M).unwrap();
            o.n(code(e.change_parameters(c, r)));
            o.op();
            let h = e.set_max_history(u32::MAX);
            o.n(code(h));
            o.n((e.max_history() == u32::MAX as usize) as i64);
            o.op();
            // 2^32 ms at the highest rate: 9e16 bytes
            if r == 2_822_400 && c == 1 {
                o.n(code(e.set_max_window(u32::MAX)));
                o.n(e.max_window() as i64);
                o.op();
            }
        }),
    }
}

/// Decaying and very quiet signals, where subnormal numbers are flushed in another way on each kind of machine.
fn quiet(t: bool) -> Space {
    const LV: [f64; 6] = [1.0, 1e-5, 1e-8, 1e-160, 1e-300, 5e-324];
    let rates: &'static [u32] = if t { &[4000, 8000, 44100] } else { &[4000] };
    Space {
        name: "quiet",
        class: "wasm",
        bound: format!("levels {:?} for 450 ms, then digital silence or a level 1e-8 of it, in calls of 1, 100 or all frames; rates {:?}", LV, rates),
        count: LV.len() * 2 * 3 * rates.len(),
        run: Box::new(move |i, o| {
            let mut d = Dig(i);
            let (a, tail, call, rate) = (d.of(&LV), d.of(&[0.0, 1e-8]), d.of(&[1usize, 100, 1 << 20]), d.of(rates));
            let n = rate as usize * 45 / 100;
            let mut e = EbuR128::new(1, rate, Mode::I | Mode::SAMPLE_PEAK).unwrap();
            for g in [a, a * tail] {
                let b: Vec<f64> = (0..n).map(|i| val(9, 0, i) as f64 / 32768.0 * g).collect();
                // calls of single frames for a stretch only
                let m = if call == 1 { 200 } else { n };
                for c in b[..m].chunks(call) {
                    e.add_frames_f64(c).unwrap();
                }
                e.add_frames_f64(&b[m..]).unwrap();
                observe(&e, o);
                o.op();
            }
        }),
    }
}

/// All formats at their extremes.
fn extremes() -> Space {
    const I: [i32; 8] = [0, 1, -1, i32::MAX, i32::MIN, i32::MIN + 1, 1 << 30, -(1 << 7)];
    const S: [i16; 8] = [0, 1, -1, i16::MAX, i16::MIN, i16::MIN + 1, 1 << 14, -300];
    const F: [f32; 8] = [0.0, f32::MAX, -1.0, 1.5, f32::MIN_POSITIVE, -1e20, f32::NAN, f32::INFINITY];
    const D: [f64; 8] = [0.0, f64::MAX, -1.0, 1.5, f64::MIN_POSITIVE, -1e20, f64::NAN, f64::NEG_INFINITY];
    Space {
        name: "extremes",
        class: "wasm",
        bound: "all pairs of 8 extreme values (limits, subnormal, huge, not finite) in each of the 4 formats x interleaved/planar, as the samples 3 and 4 of 13; all results".to_string(),
        count: 64 * 4 * 2,
        run: Box::new(move |i, o| {
            let mut d = Dig(i);
            let (x, y, f, planar) = (d.n(8), d.n(8), d.n(4), d.n(2) == 1);
            let mut e = EbuR128::new(1, 4000, Mode::all()).unwrap();
            macro_rules! go {
                ($t:ty, $a:expr, $zero:expr, $add:ident, $padd:ident) => {{
                    let mut b: Vec<$t> = vec![$zero; 13];
                    b[2] = $a[x];
                    b[3] = $a[y];
                    if planar { e.$padd(&[&b]) } else { e.$add(&b) }
                }};
            }
            let r = match f {
                0 => go!(i16, S, 0, add_frames_i16, add_frames_planar_i16),
                1 => go!(i32, I, 0, add_frames_i32, add_frames_planar_i32),
                2 => go!(f32, F, 0.0, add_frames_f32, add_frames_planar_f32),
                _ => go!(f64, D, 0.0, add_frames_f64, add_frames_planar_f64),
            };
            o.n(code(r));
            o.op();
            p(o, e.sample_peak(0));
            p(o, e.true_peak(0));
            l(o, e.loudness_momentary());
            l(o, e.loudness_window(10));
            o.op();
        }),
    }
}

/// Block loudnesses around the gates and long enough streams for the range.
fn levels(depth: u32) -> Space {
    const LV: [f64; 5] = [0.0, 2e-4, 3e-2, 0.1, 0.9];
    const MODES: [u8; 2] = [0b0001_1111, 0b0101_1111];
    Space {
        name: "levels",
        class: "wasm",
        bound: format!("all sequences of {} levels {:?} held for 1 s each at 4 kHz x plain/histogram; every result after each", depth, LV),
        count: LV.len().pow(depth) * MODES.len(),
        run: Box::new(move |i, o| {
            let mut d = Dig(i);
            let mut e = EbuR128::new(1, 4000, Mode::from_bits(d.of(&MODES)).unwrap()).unwrap();
            for _ in 0..depth {
                let a = d.of(&LV);
                let b: Vec<f32> = (0..4000).map(|i| val(9, 0, i) as f32 / 32768.0 * a as f32).collect();
                o.n(code(e.add_frames_f32(&b)));
                observe(&e, o);
                o.op();
            }
        }),
    }
}

/// One short stream at every rate of a set.
fn rates(t: bool) -> Space {
    let r: Vec<u32> = (4000..8000)
        .step_by(if t { 7 } else { 61 })
        .chain((8000..200_000).step_by(if t { 997 } else { 9973 }))
        .chain([44100, 48000, 88200, 95999, 96000, 191_999, 192_000, 352_800, 2_822_399, 2_822_400])
        .collect();
    Space {
        name: "rates",
        class: "wasm",
        bound: format!("450 ms of noise at each of {} rates 4 kHz to 2.8224 MHz x 1/3 channels", r.len()),
        count: r.len() * 2,
        run: Box::new(move |i, o| {
            let mut d = Dig(i);
            let (ch, rate) = (d.of(&[1u32, 3]), d.of(&r));
            let mut e = EbuR128::new(ch, rate, Mode::I | Mode::TRUE_PEAK).unwrap();
            let n = rate as usize * 45 / 100;
            o.n(code(feed(&mut e, ch as usize, n, 3, FMTS[i % 4], i % 3 == 0, false)));
            observe(&e, o);
            o.op();
        }),
    }
}

/// All spaces of a check.
pub fn spaces(prop: &str, t: bool) -> Vec<Space> {
    const ALL: u8 = 0b0111_1111;
    const HIST: u8 = 0b0101_1111;
    const NOHIST: u8 = 0b0011_1111;
    const PLAIN: u8 = 0b0001_1111;
    let full = Mode::I | Mode::LRA | Mode::SAMPLE_PEAK | Mode::HISTOGRAM;
    let cuts = |n: usize| (0..=n).flat_map(|a| [0, 1, 11, 12, 13, 23, 24, 25, 60].map(|b| (a, b))).collect::<Vec<_>>();
    match prop {
        "C23" => vec![
            // natively, under AddressSanitizer
            calls("calls", "asan", 3, &[ALL, NOHIST], if t { &[1, 2, 3, 6] } else { &[1, 3] }),
            calls("deep-calls", "asan", 4, if t { &[ALL, NOHIST] } else { &[NOHIST] }, &[2]),
            c_calls("asan", if t { 4 } else { 3 }, &[0x3F, 0x7F]),
            interpolators("asan", &[false, true], cuts(if t { 50 } else { 26 })),
            buffers("asan", full, if t { 16 } else { 9 }, 40, 5),
            multiples("asan", (0..40).collect()),
            // natively, under MemorySanitizer
            Space { name: "calls-uninit", ..calls("", "msan", 3, &[ALL, NOHIST], if t { &[1, 2, 3, 6] } else { &[1, 3] }) },
            Space { name: "deep-calls-uninit", ..calls("", "msan", 4, &[NOHIST], if t { &[1, 2] } else { &[2] }) },
            Space { name: "c-calls-uninit", ..c_calls("msan", 3, &[0x3F, 0x7F]) },
            Space { name: "interpolators-uninit", ..interpolators("msan", &[false, true], cuts(if t { 50 } else { 26 })) },
            Space { name: "buffers-uninit", ..buffers("msan", full, if t { 16 } else { 9 }, 40, 5) },
            Space { name: "multiples-uninit", ..multiples("msan", (0..40).collect()) },
            // natively, under ThreadSanitizer
            Space { name: "threads", ..threads("tsan", true, &[ALL, NOHIST, HIST, PLAIN]) },
            // interpreted
            Space { name: "calls-interpreted", ..calls("", "mem", 2, &[PLAIN], if t { &[1, 2, 3] } else { &[2] }) },
            Space { name: "c-calls-interpreted", ..c_calls("mem", 2, if t { &[0x1F, 0x3F] } else { &[0x1F] }) },
            Space { name: "interpolators-interpreted", ..interpolators(if t { "mem" } else { "val" }, if t { &[false, true] } else { &[false] }, if t { vec![(13, 14), (25, 26)] } else { vec![(13, 14)] }) },
            Space { name: "buffers-interpreted", ..buffers("mem", Mode::S | Mode::SAMPLE_PEAK, if t { 3 } else { 2 }, 5, 3) },
            Space { name: "multiples-interpreted", ..multiples("mem", if t { vec![0, 1, 2, 15, 16, 17, 18] } else { vec![0, 2, 17] }) },
            Space { name: "threads-interpreted", ..threads("mem", t, &[PLAIN]) },
        ],
        "C24" => vec![
            calls("calls", "wasm", 3, &[ALL, NOHIST, HIST, PLAIN, 1, 3, 5, 0x31], if t { &[1, 2, 3, 4, 5, 6, 8, 9] } else { &[1, 2, 3] }),
            calls("deep-calls", "wasm", 4, if t { &[ALL, NOHIST] } else { &[NOHIST] }, if t { &[1, 2, 3] } else { &[2] }),
            c_calls("wasm", if t { 4 } else { 3 }, &[0x3F, 0x7F]),
            interpolators("wasm", &[false, true], cuts(if t { 50 } else { 26 })),
            buffers("wasm", full, 6, 30, 5),
            multiples("wasm", (0..24).collect()),
            levels(if t { 7 } else { 6 }),
            rates(t),
            large(),
            products(t),
            limits(),
            quiet(t),
            extremes(),
        ],
        _ => vec![],
    }
}
