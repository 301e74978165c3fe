//! C17: non-finite input.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::signal::*;
use crate::sut::*;
use ebur128::EbuR128;

const BAD: [f64; 8] =
    [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 1e200, -1e39, f64::NAN];

/// Audio with one sample replaced.
fn spoiled(stream: u64, ch: usize, n: usize, at: &[(usize, usize, f64)]) -> Buf {
    let mut v = vec![];
    for f in 0..n {
        for c in 0..ch {
            v.push(noise(stream, c, f) * 0.5);
        }
    }
    for &(c, f, x) in at {
        v[f * ch + c] = x;
    }
    Buf::F64(ch, v)
}

fn spoiled32(stream: u64, ch: usize, n: usize, at: &[(usize, usize, f32)]) -> Buf {
    let mut v = vec![];
    for f in 0..n {
        for c in 0..ch {
            v.push((noise(stream, c, f) * 0.5) as f32);
        }
    }
    for &(c, f, x) in at {
        v[f * ch + c] = x;
    }
    Buf::F32(ch, v)
}

/// Nothing may be NaN that the histogram has to keep NaN-free.
fn histogram_free(s: &EbuR128) -> Res {
    for (n, r) in [("loudness_global", s.global()), ("relative_threshold", Sut::relative_threshold(s)), ("loudness_range", s.range())] {
        if let Ok(v) = r {
            if v.is_nan() {
                return Err(format!("{} is NaN with the histogram", n));
            }
        }
    }
    Ok(())
}

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    v.push(space(
        "placements",
        "3 channels, every frame 0..=29 of a 30-frame call x every channel x 8 values (NaN, +-inf, +-f64::MAX, 1e200, -1e39, -NaN), f64 and f32, interleaved and planar, seeded or added; then audio, reset, audio; model comparison after every step".to_string(),
        move |c| {
            let ch = c.pick(3);
            let f = c.pick(30);
            let mut x = c.of(&BAD);
            let e = c.of(&[Entry::F64, Entry::PF64, Entry::F32, Entry::PF32]);
            let seed = c.flag();
            let mode = c.of(&[NOHIST, ALL]);
            if x.is_nan() && f % 2 == 1 {
                x = -x;
            }
            let b = if matches!(e, Entry::F32 | Entry::PF32) {
                spoiled32(421, 3, 30, &[(ch, f, x as f32)])
            } else {
                spoiled(421, 3, 30, &[(ch, f, x)])
            };
            let mut l = Lock::rust(3, 30, mode)?.windows(&[34, 100, 400, 3000]);
            l.add(c, Entry::F64, &wide(423, 3, 0, 17, 0.6))?;
            if seed {
                l.seed(c, e, &b)?;
            } else {
                l.add(c, e, &b)?;
            }
            l.add(c, Entry::F64, &wide(423, 3, 17, 9, 0.6))?;
            l.add(c, Entry::F32, &grid(423, 3, 26, 95, 0.6))?;
            if mode & HIST != 0 {
                histogram_free(&l.sut)?;
            }
            l.reset(c)?;
            l.add(c, Entry::F64, &wide(425, 3, 0, 14, 0.2))?;
            l.add(c, Entry::F64, &wide(425, 3, 14, 90, 0.2))
        },
    ));
    v.push(space(
        "real-rates",
        "stereo at 8000, 44100, 96000, 192000 Hz: one bad sample of each kind at positions around the block and interpolator boundaries, either channel; 0.7 s, then reset and 0.5 s".to_string(),
        move |c| {
            let rate = c.of(&[8000u32, 44100, 96000, 192000]);
            let s = (rate as usize + 5) / 10;
            let f = c.of(&[0, 1, 11, 12, 23, 24, 25, 4 * s - 1, 4 * s]);
            let ch = c.pick(2);
            let x = c.of(&BAD[..if t { 7 } else { 4 }]);
            let mode = c.of(&[NOHIST, ALL]);
            let mut l = Lock::rust(2, rate, mode)?.windows(&[1, 100, 400]);
            l.add(c, Entry::F64, &spoiled(427, 2, 5 * s, &[(ch, f, x)]))?;
            l.add(c, Entry::F64, &wide(429, 2, 0, 2 * s, 0.5))?;
            l.reset(c)?;
            l.add(c, Entry::F64, &wide(429, 2, 0, 5 * s, 0.25))
        },
    ));
    let depth = if t { 5 } else { 4 };
    v.push(space(
        "sequences",
        format!("all sequences of {} operations over 13 (NaN/inf/huge in single channels or everywhere, as f32 or f64, seeded; audio of 3 lengths, silence, reset, rate, window, type), both history kinds; model comparison after every step", depth),
        move |c| {
            let mode = c.of(&[NOHIST, ALL]);
            let mut l = Lock::rust(2, 30, mode)?.windows(&[34, 100, 400, 3000]);
            for i in 0..depth {
                let st = 431 + i as u64;
                match c.pick(14) {
                    0 => l.add(c, Entry::F64, &wide(st, 2, 0, 14, 0.5))?,
                    1 => l.add(c, Entry::F64, &spoiled(st, 2, 5, &[(0, 3, f64::NAN)]))?,
                    2 => l.add(c, Entry::PF32, &spoiled32(st, 2, 13, &[(1, 0, f32::NAN)]))?,
                    3 => l.add(c, Entry::F64, &spoiled(st, 2, 13, &[(1, 12, f64::INFINITY)]))?,
                    4 => l.add(c, Entry::F64, &spoiled(st, 2, 4, &[(0, 2, f64::MAX), (1, 3, f64::MIN)]))?,
                    5 => l.add(c, Entry::F32, &Buf::F32(2, vec![f32::NAN; 40]))?,
                    6 => l.seed(c, Entry::PF64, &spoiled(st, 2, 3, &[(0, 1, f64::NAN)]))?,
                    7 => l.reset(c)?,
                    8 => {
                        let r = if l.m.rate == 30 { 34 } else { 30 };
                        l.change_parameters(c, 2, r)?
                    }
                    9 => {
                        let w = if l.m.window == 3000 { 3300 } else { 0 };
                        l.set_max_window(c, w)?
                    }
                    10 => l.add(c, Entry::F64, &wide(st, 2, 0, 95, 0.5))?,
                    11 => l.add(c, Entry::PI16, &grid(st, 2, 0, 1, 0.9))?,
                    12 => l.change_parameters(c, if l.m.channels == 2 { 1 } else { 2 }, 30)
                        .and_then(|_| if l.m.channels == 1 { l.change_parameters(c, 2, 30) } else { Ok(()) })?,
                    _ => l.set_max_history(c, 3000)?,
                }
                if mode & HIST != 0 && c.fresh() {
                    histogram_free(&l.sut)?;
                }
            }
            Ok(())
        },
    ));
    v.push(space(
        "all-values",
        "every combination of 9 values (finite, zero, NaN, +-inf, +-MAX, subnormal) over 4 frames x 1 channel in f64 and f32, all modes, then 100 frames, reset, 100 frames: no panic, peaks as modelled".to_string(),
        |c| {
            let vals = [0.5, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 5e-324, -1.0];
            let f32s = c.flag();
            let mode = c.of(&[NOHIST, ALL]);
            let mut x = vec![];
            for _ in 0..4 {
                x.push(c.of(&vals));
            }
            let b = if f32s { Buf::F32(1, x.iter().map(|x| *x as f32).collect()) } else { Buf::F64(1, x) };
            let mut l = Lock::rust(1, 30, mode)?.windows(&[34, 100, 400]);
            l.add(c, if f32s { Entry::F32 } else { Entry::F64 }, &b)?;
            l.add(c, Entry::F64, &wide(441, 1, 0, 10, 0.5))?;
            l.add(c, Entry::F64, &wide(441, 1, 10, 90, 0.5))?;
            if mode & HIST != 0 {
                histogram_free(&l.sut)?;
            }
            l.reset(c)?;
            l.add(c, Entry::F64, &wide(441, 1, 0, 100, 0.5))
        },
    ));
    v.push(space(
        "combined",
        "2 and 3 analysers, each clean, with a NaN block, an infinite block or empty: combined global loudness and range do not panic, stay NaN-free with the histogram, and are NaN if a NaN block takes part without it".to_string(),
        |c| {
            let hist = c.flag();
            let mode = if hist { ALL } else { NOHIST };
            let n = c.of(&[2usize, 3]);
            let mut v = vec![];
            let mut nan = false;
            for i in 0..n {
                let mut s = EbuR128::new(1, 30, mode_of(mode)).unwrap();
                let k = c.pick(4);
                let b = match k {
                    0 => spoiled(443 + i as u64, 1, 95, &[]),
                    1 => spoiled(443, 1, 95, &[(0, 20, f64::NAN)]),
                    2 => spoiled(443, 1, 95, &[(0, 90, f64::MAX)]),
                    _ => spoiled(443, 1, 3, &[]),
                };
                // inf - inf in the filter turns an infinite sample into NaN
                nan |= k == 1;
                s.add(Entry::F64, &b).unwrap();
                v.push(s);
                c.state((i * 8 + k) as u64 + hist as u64 * 1000);
            }
            c.checked();
            let g = EbuR128::loudness_global_multiple(v.iter()).unwrap();
            let r = EbuR128::loudness_range_multiple(v.iter()).unwrap();
            if hist && (g.is_nan() || r.is_nan()) {
                return Err(format!("combined results {:?} / {:?} with the histogram", g, r));
            }
            if !hist && nan && !(g.is_nan() && r.is_nan()) {
                return Err(format!("combined results {:?} / {:?} although a NaN block takes part", g, r));
            }
            Ok(())
        },
    ));
    v
}
