//! C03: integrated loudness.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::signal::*;
use crate::sut::*;

pub const LEVELS: [f64; 5] = [-100.0, -57.0, -40.0, -28.0, -14.0];
const FOCUS: u32 = W_CONF | W_MOM | W_GLOB;

/// Mean block energy of unit-amplitude noise at this rate (for aiming at levels).
pub fn unit_energy(rate: u32, ch: usize) -> f64 {
    let mut m = Model::new(ch as u32, rate, I).unwrap();
    m.track_tp = false;
    m.add(&wide(31, ch, 0, rate as usize * 2, 1.0)).unwrap();
    m.energy_last(rate as usize)
}

/// Amplitude of the noise whose blocks have about this loudness.
pub fn amp_for(rate: u32, ch: usize, lufs: f64) -> f64 {
    (energy(lufs) / unit_energy(rate, ch)).sqrt()
}

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    // levels per 100 ms hop
    let depth = if t { 9 } else { 7 };
    v.push(space(
        "hop-levels",
        format!("all sequences of {} 100 ms hops over 5 levels, rate 30 stereo, model comparison after every hop", depth),
        move |c| {
            let mut l = Lock::rust(2, 30, I)?.what(FOCUS);
            for i in 0..depth {
                let a = c.of(&LEVELS);
                l.add(c, Entry::F64, &wide(33, 2, i * 3, 3, db(a + 10.0)))?;
            }
            Ok(())
        },
    ));
    // levels per 400 ms / 1 s, long enough for several relative gates
    let depth = if t { 7 } else { 6 };
    v.push(space(
        "segment-levels",
        format!("all sequences of {} segments over 5 levels x lengths {{400 ms, 500 ms}}, rate 34 mono", depth),
        move |c| {
            let long = c.flag();
            let n = if long { 15 } else { 12 };
            let mut l = Lock::rust(1, 34, I | LRA)?.what(FOCUS);
            for i in 0..depth {
                let a = c.of(&[-66.0, -48.0, -33.0, -20.0, -6.0]);
                l.add(c, Entry::F64, &wide(35, 1, i * n, n, db(a)))?;
            }
            Ok(())
        },
    ));
    // the absolute gate
    v.push(space(
        "absolute-gate",
        format!("steady noise at {} levels from -76 to -64 LUFS, 8 blocks, rates 30 and 80, with and without a loud block", if t { 12001 } else { 2401 }),
        move |c| {
            let k = c.pick(if t { 12001 } else { 2401 });
            let rate = c.of(&[30u32, 80]);
            let loud = c.flag();
            let s = (rate as usize + 5) / 10;
            let lv = -76.0 + 12.0 * k as f64 / if t { 12000.0 } else { 2400.0 };
            let a = amp_cached(rate) * db(lv);
            let mut l = Lock::rust(1, rate, I)?.what(FOCUS);
            if loud {
                l.add(c, Entry::F64, &wide(37, 1, 0, s * 4, a * db(6.0)))?;
            }
            l.add(c, Entry::F64, &wide(37, 1, 40 * s, s * 11, a))
        },
    ));
    // the relative gate
    v.push(space(
        "relative-gate",
        format!("{} level differences (4..16 LU) x {} length ratios between a loud and a quiet part", if t { 4801 } else { 1201 }, 5),
        move |c| {
            let k = c.pick(if t { 4801 } else { 1201 });
            let (p, q) = c.of(&[(8usize, 8usize), (4, 20), (20, 4), (40, 9), (9, 40)]);
            let d = 4.0 + 12.0 * k as f64 / if t { 4800.0 } else { 1200.0 };
            let quiet_first = c.flag();
            let mut l = Lock::rust(1, 30, I)?.what(FOCUS);
            let (a, b) = (db(-12.0), db(-12.0 - d));
            let (x, y) = if quiet_first { (b, a) } else { (a, b) };
            l.sut.add(Entry::F64, &wide(39, 1, 0, p * 3, x)).unwrap();
            l.m.add(&wide(39, 1, 0, p * 3, x)).unwrap();
            l.add(c, Entry::F64, &wide(39, 1, p * 3, q * 3, y))
        },
    ));
    // extreme levels
    v.push(space(
        "extreme-levels",
        "f64 levels from -300 dB to +200 dB in 1 dB steps, then a second level, stereo".to_string(),
        |c| {
            let a = c.pick(501) as f64 - 300.0;
            let b = c.of(&[-20.0, -300.0, 60.0, 0.0]);
            let mut l = Lock::rust(2, 30, I | SP)?.what(FOCUS | W_SP);
            l.add(c, Entry::F64, &wide(41, 2, 0, 30, db(a)))?;
            l.add(c, Entry::F64, &wide(41, 2, 30, 30, db(b)))
        },
    ));
    v.push(space(
        "units",
        "energy_to_loudness for every exponent of f64 (-1074..1023) x 64 mantissas; loudness_global equals it for the mean of gating_block_count_and_energy at 301 levels".to_string(),
        |c| {
            let k = c.pick(2098 + 301);
            c.state(k as u64);
            c.checked();
            if k < 2098 {
                for m in 0..64u64 {
                    let e = if k == 0 { f64::from_bits(m + 1) } else if k <= 52 { f64::from_bits((1 << (k - 1)) | m % (1 << (k - 1))) } else { f64::from_bits(((k - 51) as u64) << 52 | m << 46 | m) };
                    let (got, want) = (ebur128::energy_to_loudness(e), 10.0 * e.log10() - 0.691);
                    if !e.is_finite() {
                        continue;
                    }
                    if !((got - want).abs() < 1e-9) {
                        return Err(format!("energy_to_loudness({:e}) = {:?}, expected {:?}", e, got, want));
                    }
                }
                let z = ebur128::energy_to_loudness(0.0);
                if z != f64::NEG_INFINITY {
                    return Err(format!("energy_to_loudness(0) = {:?}", z));
                }
                return Ok(());
            }
            let mut l = Lock::rust(2, 30, I)?.what(FOCUS);
            for i in 0..4 {
                l.add(c, Entry::F64, &wide(49, 2, i * 30, 30, db((k - 2098) as f64 * 0.3 - 75.0 + 10.0 * (i % 2) as f64)))?;
                let g = l.sut.loudness_global().map_err(|e| e.to_string())?;
                let want = l.sut.gating_block_count_and_energy().map_or(f64::NEG_INFINITY, |(n, e)| ebur128::energy_to_loudness(e / n as f64));
                if !close(g, want) {
                    return Err(format!("loudness_global is {:?}, the mean energy of the gated blocks gives {:?}", g, want));
                }
            }
            Ok(())
        },
    ));
    // many blocks
    v.push(space(
        "long-streams",
        format!("{} blocks of varying level in calls of several sizes and {} blocks ({} hours) in large calls, comparison at geometrically growing block counts", if t { 200_000 } else { 30_000 }, if t { 6_100_000 } else { 1_250_000 }, if t { 169 } else { 34 }),
        move |c| {
            let size = c.of(&[3usize, 3000, 17, 1000, 30_000]);
            let pattern = c.pick(4);
            let blocks = match (t, size == 30_000) {
                (false, false) => 30_000usize,
                (true, false) => 200_000,
                (false, true) => 1_250_000,
                (true, true) => 6_100_000,
            };
            let mut l = Lock::rust(1, 30, I)?.what(FOCUS);
            let n = blocks * 3;
            let mut from = 0;
            let mut next = 100usize;
            while from < n {
                let k = size.min(n - from);
                let mut d = Vec::with_capacity(k);
                for f in from..from + k {
                    let seg = f / 40;
                    let lv = match pattern {
                        0 => -20.0 + 8.0 * noise(43, 0, seg),
                        1 => -45.0 + 30.0 * noise(43, 0, seg),
                        2 => -10.0 - 60.0 * f as f64 / n as f64,
                        _ => -70.0 + 60.0 * f as f64 / n as f64,
                    };
                    d.push(noise(45, 0, f) * db(lv));
                }
                let b = Buf::F64(1, d);
                l.sut.add(Entry::F64, &b).map_err(|e| format!("{:?}", e))?;
                l.m.add(&b).unwrap();
                from += k;
                if from / 3 >= next {
                    l.after(c)?;
                    next = next * 5 / 4;
                }
            }
            l.after(c)
        },
    ));
    // real rates
    v.push(space(
        "real-rates",
        format!("rates {}: all sequences of 3 segments of 0.7 s over 4 levels, stereo and 5 channels", if t { "8000..384000" } else { "8000/44100/48000" }),
        move |c| {
            let rate = c.of(if t {
                &[8000u32, 11025, 16000, 22050, 32000, 44100, 48000, 88200, 96000, 192000, 384000][..]
            } else {
                &[8000u32, 44100, 48000][..]
            });
            let chn = c.of(&[2usize, 5]);
            let n = rate as usize * 7 / 10;
            let mut l = Lock::rust(chn as u32, rate, I)?.what(FOCUS);
            for i in 0..3 {
                let a = c.of(&[-20.0, -58.0, -6.0, -30.0]);
                l.add(c, Entry::F32, &grid(47, chn, i * n, n, db(a)))?;
            }
            Ok(())
        },
    ));
    v.push(super::in_context(if t { 7 } else { 5 }, FOCUS, &[I, NOHIST]));
    v
}

fn amp_cached(rate: u32) -> f64 {
    use std::sync::OnceLock;
    static A: OnceLock<f64> = OnceLock::new();
    static B: OnceLock<f64> = OnceLock::new();
    *(if rate == 30 { &A } else { &B }).get_or_init(|| amp_for(rate, 1, 0.0))
}
