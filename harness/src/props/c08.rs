//! C08: true peak.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::signal::*;
use crate::sut::*;

const FOCUS: u32 = W_CONF | W_SP | W_TP;

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    // all sign patterns over the interpolator's memory
    let bits = if t { 16 } else { 13 };
    for (name, rate) in [("sign-patterns-4x", 48000u32), ("sign-patterns-2x", 96000)] {
        v.push(space(
            name,
            format!("all 2^{} sign patterns of full-scale samples (2x: every sample doubled) at rate {}, mono", bits, rate),
            move |c| {
                let mut d = vec![];
                for _ in 0..bits {
                    let x: i16 = if c.flag() { -32768 } else { 32767 };
                    d.push(x);
                    if rate == 96000 {
                        d.push(x);
                    }
                }
                let mut l = Lock::rust(1, rate, TP)?.what(FOCUS);
                if c.fresh() {
                    l.add(c, Entry::I16, &Buf::Grid(1, d))?;
                    l.add(c, Entry::I16, &Buf::Grid(1, vec![0; 30]))?;
                }
                Ok(())
            },
        ));
    }
    // impulse position / channel / channel count / oversampling factor
    v.push(space(
        "impulse",
        "channel counts 1..=64 x impulse channel x position 0..=5 x rate {48000, 96000, 192000} x interleaved/planar, tail in a second call".to_string(),
        move |c| {
            let chn = c.range(1, 64);
            let k = c.pick(chn);
            let p = c.pick(6);
            let rate = c.of(&[48000u32, 96000, 192000]);
            let e = c.of(&[Entry::F32, Entry::PI16]);
            if !t && chn > 9 && (p != k % 6) {
                return Ok(());
            }
            let mut d = vec![0i16; 6 * chn];
            d[p * chn + k] = 20000;
            if p > 0 {
                d[(p - 1) * chn + k] = 19000;
            }
            let mut l = Lock::rust(chn as u32, rate, TP)?.what(FOCUS);
            if c.fresh() {
                l.add(c, e, &Buf::Grid(chn, d))?;
                l.add(c, e, &Buf::Grid(chn, vec![0; 30 * chn]))?;
                for o in 0..chn as u32 {
                    if o != k as u32 && l.sut.true_peak(o) != Ok(0.0) {
                        return Err(format!("silent channel {} has true peak {:?}", o, l.sut.true_peak(o)));
                    }
                }
            }
            Ok(())
        },
    ));
    // every channel count with distinct noise in all channels
    v.push(space(
        "noise",
        "channel counts 1..=64 x rates {16, 44100, 95999, 96000, 191999, 192000, 2822400} x 8 entry points, distinct noise, 3 calls".to_string(),
        |c| {
            let chn = c.range(1, 64);
            let rate = c.of(&[44100u32, 16, 95999, 96000, 191999, 192000, 2822400]);
            let e = if chn <= 9 { c.of(&ENTRIES) } else { ENTRIES[(chn + rate as usize) % 8] };
            if rate == 2822400 && chn != 2 && chn != 64 && chn != 7 {
                return Ok(());
            }
            let mut l = Lock::rust(chn as u32, rate, TP)?.what(FOCUS);
            if c.fresh() {
                l.add(c, e, &grid(111, chn, 0, 33, 0.99))?;
                l.add(c, e, &grid(111, chn, 33, 3, 0.99))?;
                l.add(c, e, &grid(111, chn, 36, 20, 0.3))?;
            }
            Ok(())
        },
    ));
    // memory across calls
    v.push(space(
        "memory",
        format!("all compositions of {} frames into calls, stereo and generic channel counts, 4x and 2x", if t { 15 } else { 12 }),
        move |c| {
            let (chn, rate) = c.of(&[(2usize, 48000u32), (3, 48000), (1, 100000), (5, 100000)]);
            let n = if t { 15 } else { 12 };
            let mut l = Lock::rust(chn as u32, rate, TP)?.what(FOCUS);
            let mut from = 0;
            for f in 1..=n {
                if f == n || c.flag() {
                    l.add(c, Entry::F32, &grid(113, chn, from, f - from, 0.99))?;
                    from = f;
                }
            }
            l.add(c, Entry::F32, &silence(chn, 8))
        },
    ));
    // a peak between samples, any phase and frequency
    v.push(space(
        "tones",
        "sines of 64 frequencies x 16 phases x 4x/2x, 60 frames".to_string(),
        |c| {
            let f = c.range(1, 64) as f64 / 130.0;
            let ph = c.pick(16) as f64 / 16.0;
            let rate = c.of(&[48000u32, 96000]);
            let d = (0..60)
                .map(|i| (0.9 * (2.0 * std::f64::consts::PI * (f * i as f64 + ph)).sin() * 32768.0) as i16)
                .collect();
            let mut l = Lock::rust(1, rate, TP)?.what(FOCUS);
            l.add(c, Entry::I16, &Buf::Grid(1, d))
        },
    ));
    v.push(space(
        "amplitudes",
        "channel counts {1,2,3,4,5,6,8} x 4x/2x/1x x noise of every amplitude 2^-40..2^60 (far beyond full scale included) x f32/f64 entry points, i32 noise with all 32 bits; seeded with as much".to_string(),
        |c| {
            let chn = c.of(&[1usize, 2, 3, 4, 5, 6, 8]);
            let rate = c.of(&[48000u32, 96000, 192000]);
            let k = c.pick(102);
            let (b, s) = if k < 101 {
                let a = 2f64.powi(k as i32 - 40);
                (wide(115, chn, 7, 40, a), wide(115, chn, 0, 7, a))
            } else {
                let f = |b: Buf| {
                    let v = (0..b.len()).map(|i| (b.at(i) * 2147483000.0) as i32).collect();
                    Buf::I32(chn, v)
                };
                (f(wide(117, chn, 7, 40, 0.99)), f(wide(117, chn, 0, 7, 0.99)))
            };
            // (the values must survive the format)
            let b32 = |b: &Buf| Buf::F32(chn, (0..b.len()).map(|i| b.at(i) as f32).collect());
            let e = c.of(&[Entry::F64, Entry::F32, Entry::PF32, Entry::PF64]);
            let (b, s, e) = match e {
                _ if k == 101 => (b, s, if matches!(e, Entry::F64 | Entry::F32) { Entry::I32 } else { Entry::PI32 }),
                Entry::F32 | Entry::PF32 => (b32(&b), b32(&s), e),
                _ => (b, s, e),
            };
            let mut l = Lock::rust(chn as u32, rate, TP)?.what(FOCUS);
            if c.fresh() {
                l.seed(c, e, &s)?;
                l.add(c, e, &b)?;
                l.add(c, e, &s)?;
            }
            Ok(())
        },
    ));
    // which rates are oversampled how
    v.push(space(
        "every-rate",
        format!("oversampling factor observed on an inter-sample peak at rates 16..=2822400 step {} and all within 50 of the limits", if t { 97 } else { 997 }),
        move |c| {
            let step = if t { 97 } else { 997 };
            let n = 2822385 / step;
            let k = c.pick(n + 202);
            let rate = if k < n {
                16 + (k * step) as u32
            } else if k < n + 101 {
                95950 + (k - n) as u32
            } else {
                191950 + (k - n - 101) as u32
            };
            let mut l = Lock::rust(1, rate, TP)?.what(FOCUS);
            let d = vec![0i16, 0, 3000, -9000, 30000, 30000, -9000, 3000, 500, -20000, 20000, 20000, 0];
            l.add(c, Entry::I16, &Buf::Grid(1, d))
        },
    ));
    v.push(super::in_context(if t { 6 } else { 5 }, FOCUS, &[TP, NOHIST]));
    v
}
