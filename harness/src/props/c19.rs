//! C19: floating-point environment and denormals.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::signal::*;
use crate::sut::*;
use crate::sys;
use ebur128::EbuR128;

/// Everything but the sticky status flags.
const CONTROL: u32 = 0xffc0;
const DEFAULT: u32 = 0x1f80;

/// Runs `f` with the given control state; reports the state it left behind.
fn under<T>(csr: u32, f: impl FnOnce() -> T) -> (T, u32, u16, u16) {
    struct Restore(u32);
    impl Drop for Restore {
        fn drop(&mut self) {
            sys::set_mxcsr(self.0);
        }
    }
    let _g = Restore(sys::mxcsr() & !0x3f);
    let cw = sys::fpcw();
    sys::set_mxcsr(csr);
    let r = std::hint::black_box(f());
    let after = sys::mxcsr();
    let cw2 = sys::fpcw();
    (r, after, cw, cw2)
}

fn kept(what: &str, csr: u32, after: u32, cw: u16, cw2: u16) -> Res {
    if after & CONTROL != csr & CONTROL {
        return Err(format!("{} changed the control state from {:#06x} to {:#06x}", what, csr & CONTROL, after & CONTROL));
    }
    if cw != cw2 {
        return Err(format!("{} changed the x87 control word from {:#06x} to {:#06x}", what, cw, cw2));
    }
    Ok(())
}

/// All combinations of rounding mode, flush-to-zero and denormals-are-zero.
fn environments() -> Vec<u32> {
    let mut v = vec![];
    for r in 0..4u32 {
        for z in 0..4u32 {
            v.push(DEFAULT | r << 13 | (z & 1) << 15 | (z >> 1) << 6);
        }
    }
    v
}

fn name(k: usize) -> &'static str {
    [
        "add_frames", "add_frames (8 blocks)", "add_frames (one frame)", "add_frames (empty)", "add_frames (bad length)", "add_frames (NaN)",
        "add_frames (subnormal)", "seed_frames", "seed_frames (bad length)", "seed_frames (NaN)", "reset", "change_parameters",
        "change_parameters (bad)", "set_max_window", "set_max_history", "set_channel", "queries", "new", "multiple", "C API", "add_frames planar (bad)",
    ][k]
}
const OPS: usize = 21;

fn run(s: &mut EbuR128, k: usize, e: Entry, salt: u64) -> u64 {
    let ch = s.channels() as usize;
    let st = 601 + salt;
    let bad = vec![0.5f64; ch + 1];
    let code = |r: R| match r {
        Ok(()) => 0u64,
        Err(crate::sut::Err::NoMem) => 1,
        Err(_) => 2,
    };
    match k {
        0 => code(s.add(e, &grid(st, ch, 0, 13, 0.7))),
        1 => code(s.add(e, &grid(st, ch, 0, 100, 0.7))),
        2 => code(s.add(e, &grid(st, ch, 0, 1, 0.7))),
        3 => code(s.add(e, &grid(st, ch, 0, 0, 0.7))),
        4 => code(s.add_frames_f64(&bad).map_err(conv)),
        5 => code(s.add(Entry::F64, &Buf::F64(ch, vec![f64::NAN; ch * 13]))),
        6 => code(s.add(Entry::F64, &Buf::F64(ch, vec![3e-310; ch * 40]))),
        7 => code(s.seed(e, &grid(st, ch, 0, 20, 0.7))),
        8 => code(s.seed_frames_f64(&bad).map_err(conv)),
        9 => code(s.seed(Entry::F64, &Buf::F64(ch, vec![f64::NAN; ch * 3]))),
        10 => {
            s.reset();
            0
        }
        11 => code(Sut::change_parameters(s, ch as u32, if s.rate() == 30 { 34 } else { 30 })),
        12 => code(Sut::change_parameters(s, 0, 48000)),
        13 => code(Sut::set_max_window(s, if s.max_window() == 3000 { 3300 } else { 0 })),
        14 => code(Sut::set_max_history(s, 5000)),
        15 => code(Sut::set_channel(s, 0, ebur128::Channel::Mp060)),
        16 => results(s, &[34, 400, 3000]).len() as u64,
        17 => EbuR128::new(2, 48000, mode_of(ALL)).map(|_| 0).unwrap_or(1),
        18 => {
            let a = EbuR128::loudness_global_multiple([&*s, &*s].into_iter()).is_ok();
            let b = EbuR128::loudness_range_multiple([&*s, &*s]).is_ok();
            a as u64 + 2 * b as u64
        }
        19 => {
            let mut c = CApi::new(2, 30, 127).unwrap();
            let r = code(c.add(Entry::F32, &grid(st, 2, 0, 50, 0.5)));
            r + c.global().is_ok() as u64 * 4
        }
        _ => {
            let x = [0.5f32; 3];
            let y = [0.5f32; 2];
            code(s.add_frames_planar_f32(&[&x, &y]).map_err(conv))
        }
    }
}

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    v.push(space(
        "control-state",
        format!("all {} calls (valid, failing, multi-block, seeding, queries, C API) x all 16 combinations of rounding mode, flush-to-zero and denormals-are-zero x 8 entry points x before/after audio x channels with Unused ones, all modes", OPS),
        |c| {
            let csr = c.of(&environments());
            let k = c.pick(OPS);
            let e = c.of(&ENTRIES);
            let pre = c.pick(3);
            let chn = c.of(&[2u32, 1, 5]);
            let mode = c.of(&[NOHIST, ALL, M]);
            let mut s = EbuR128::new(chn, 30, mode_of(mode)).unwrap();
            if chn == 5 {
                s.set_channel(0, ebur128::Channel::Unused).unwrap();
                s.set_channel(4, ebur128::Channel::Unused).unwrap();
            }
            for i in 0..pre {
                run(&mut s, i, Entry::F32, 7);
            }
            c.say(|| format!("{} with control state {:#06x}", name(k), csr));
            c.state(mix(mix(csr as u64, k as u64), mix(e as u64, pre as u64 * 64 + chn as u64)));
            c.checked();
            let (r, after, cw, cw2) = under(csr, || run(&mut s, k, e, 1));
            c.outcome(r);
            kept(name(k), csr, after, cw, cw2)
        },
    ));
    let depth = if t { 4 } else { 3 };
    v.push(space(
        "sequences",
        format!("all sequences of {} calls over {} in 6 environments (each rounding mode, FTZ, DAZ+FTZ); state checked after every call, and audio afterwards measured as without", depth, OPS),
        move |c| {
            let e = environments();
            let csr = c.of(&[e[0], e[1], e[3], e[4], e[8], e[12]]);
            let mut a = EbuR128::new(2, 30, mode_of(ALL)).unwrap();
            let mut h = csr as u64;
            for i in 0..depth {
                let k = c.pick(OPS);
                h = mix(h, k as u64);
                c.state(h);
                let fresh = c.fresh();
                let (_, after, cw, cw2) = under(csr, || run(&mut a, k, Entry::F32, i as u64));
                if fresh {
                    c.checked();
                    kept(name(k), csr, after, cw, cw2)?;
                }
            }
            Ok(())
        },
    ));
    v.push(space(
        "unmasked-exceptions",
        "division-by-zero and overflow exceptions unmasked (each and both) while audio is added or seeded through all entry points in calls of 1..=40 frames: masks preserved".to_string(),
        |c| {
            let csr = DEFAULT & !c.of(&[0x200u32, 0x400, 0x600]);
            let e = c.of(&ENTRIES);
            let n = c.range(1, 40);
            let seed = c.flag();
            let mut s = EbuR128::new(2, 30, mode_of(NOHIST)).unwrap();
            let b = grid(611, 2, 0, n, 0.5);
            c.state(mix(csr as u64, (n * 64 + e as usize * 2 + seed as usize) as u64));
            c.checked();
            let (r, after, cw, cw2) = under(csr, || if seed { s.seed(e, &b) } else { s.add(e, &b) });
            same("call", r, Ok(()))?;
            kept("audio", csr, after, cw, cw2)
        },
    ));
    v.push(space(
        "same-results",
        "all sequences of 3 calls over 6 (audio of several lengths and formats, seeding, silence) in every one of the 16 environments: all results equal those in the default environment (1e-6 LU)".to_string(),
        |c| {
            let csr = c.of(&environments());
            let mk = || EbuR128::new(2, 30, mode_of(NOHIST)).unwrap();
            let (mut a, mut b) = (mk(), mk());
            let mut h = csr as u64;
            for i in 0..3u64 {
                let k = c.pick(6);
                h = mix(h, k as u64);
                let go = |s: &mut EbuR128| match k {
                    0 => s.add(Entry::F64, &wide(621 + i, 2, 0, 14, 0.7)),
                    1 => s.add(Entry::I16, &grid(623 + i, 2, 0, 3, 0.9)),
                    2 => s.add(Entry::PF32, &grid(625 + i, 2, 0, 95, 0.2)),
                    3 => s.seed(Entry::F32, &grid(627 + i, 2, 0, 9, 0.9)),
                    4 => s.add(Entry::F64, &silence(2, 120)),
                    _ => s.add(Entry::F64, &wide(629 + i, 2, 0, 31, 1e-4)),
                };
                let (r, ..) = under(csr, || go(&mut a));
                same("call", r, go(&mut b))?;
            }
            c.state(h);
            c.checked();
            for ((n, x), (_, y)) in results(&a, &[34, 100, 400, 3000]).into_iter().zip(results(&b, &[34, 100, 400, 3000])) {
                let ok = match (x, y) {
                    (Ok(x), Ok(y)) => (x - y).abs() <= 1e-5 || x == y || (x < -150.0 && y < -150.0),
                    (x, y) => x == y,
                };
                if !ok {
                    return Err(format!("{} is {:?} with control state {:#06x} and {:?} in the default one", n, x, csr, y));
                }
            }
            Ok(())
        },
    ));
    v.push(space(
        "denormals",
        format!("all sequences of {} segments over 8 (loud, silence short/long, subnormal f64 and f32, smallest normal, -150 dB, alternating subnormals) at 48 kHz/2 ch (80 ms segments) and 30 Hz (2 s segments); model comparison after every segment", if t { 5 } else { 4 }),
        move |c| {
            let rate = c.of(&[30u32, 48000]);
            let n0 = if rate == 30 { 60 } else { 3840 };
            let mut l = Lock::rust(2, rate, if rate == 30 { NOHIST } else { I | SP })?.windows(&[34, 100, 400]);
            let depth = if t { 5 } else { 4 };
            for i in 0..if rate == 30 { depth } else { depth - 1 } {
                let from = l.m.n;
                let k = c.pick(8);
                let f = |x: f64| Buf::F64(2, (0..2 * n0).map(|j| if j % 3 == 0 { -x } else { x }).collect());
                match k {
                    0 => l.add(c, Entry::F64, &wide(631 + i as u64, 2, from, n0, 0.9))?,
                    1 => l.add(c, Entry::F64, &silence(2, n0))?,
                    2 => l.add(c, Entry::I16, &silence(2, 10 * n0))?,
                    3 => l.add(c, Entry::F64, &f(1e-310))?,
                    4 => l.add(c, Entry::PF32, &Buf::F32(2, (0..2 * n0).map(|j| if j % 2 == 0 { 1e-40 } else { -3e-42 }).collect()))?,
                    5 => l.add(c, Entry::F64, &f(f64::MIN_POSITIVE))?,
                    6 => l.add(c, Entry::F64, &wide(633, 2, from, n0, db(-150.0)))?,
                    _ => l.add(c, Entry::F64, &f(5e-324))?,
                }
            }
            Ok(())
        },
    ));
    v.push(space(
        "no-slowdown",
        "audio that decays to digital silence, at 4 rates x 1/2/6 channels x add/seed x 4 formats: 100 ms of the silence never take more than 8 times as long as 100 ms of noise (fastest of 10 each; 6 attempts)".to_string(),
        |c| {
            let rate = c.of(&[8000u32, 44100, 48000, 192_000]);
            let chn = c.of(&[1usize, 2, 6]);
            let seed = c.flag();
            let e = c.of(&[Entry::F64, Entry::I16, Entry::PF32, Entry::I32]);
            c.state(mix(rate as u64 * 64 + chn as u64, e as u64 * 2 + seed as u64));
            c.checked();
            let n = rate as usize / 10;
            let mut s = EbuR128::new(chn as u32, rate, mode_of(I)).unwrap();
            let (loud, quiet) = (grid(651, chn, 0, n, 0.8), silence(chn, n));
            // Whether a decaying filter is slow depends on the processor; where it is, it is some 40 times as slow.
            let mut worst = 0.0;
            for _ in 0..6 {
                let time = |s: &mut EbuR128, b: &Buf| -> R<f64> {
                    let t = std::time::Instant::now();
                    if seed { s.seed(e, b)? } else { s.add(e, b)? };
                    Ok(t.elapsed().as_nanos() as f64)
                };
                let mut go = |b: &Buf, skip: usize| -> R<f64> {
                    let mut m = f64::INFINITY;
                    for i in 0..skip + 10 {
                        let x = time(&mut s, b)?;
                        if i >= skip {
                            m = m.min(x);
                        }
                    }
                    Ok(m)
                };
                let a = go(&loud, 0).map_err(|e| format!("{:?}", e))?;
                // the filter is below 1e-308 after some 4 s
                let b = go(&quiet, 50).map_err(|e| format!("{:?}", e))?;
                worst = b / a;
                if worst < 8.0 {
                    return Ok(());
                }
            }
            Err(format!("silence after audio is processed {:.0} times as slowly as noise", worst))
        },
    ));
    v
}
