//! C13: segmented analysis with seeding.
use crate::explore::*;
use crate::lock::mode_of;
use crate::model::*;
use crate::signal::*;
use crate::sut::*;
use ebur128::EbuR128;

const TOL: f64 = 1e-4;

/// Analyses `x` in chunks starting at the `cuts` (frames), each seeded as documented.
/// `overlap` is the overlap in frames without the seed, `seed` the seed length.
fn segments(
    x: &Buf,
    rate: u32,
    mode: u8,
    cuts: &[usize],
    overlap: usize,
    seed: usize,
    e: Entry,
    call: usize,
    scall: usize,
) -> Result<Vec<EbuR128>, String> {
    let mut v = vec![];
    let total = x.frames();
    for k in 0..=cuts.len() {
        let mut s = new(x.channels() as u32, rate, mode_of(mode)).map_err(|e| format!("new: {:?}", e))?;
        let end = cuts.get(k).copied().unwrap_or(total);
        let start = if k == 0 {
            0
        } else {
            let from = cuts[k - 1] - overlap;
            let mut f = from - seed;
            while f < from {
                let n = scall.min(from - f);
                s.seed(e, &x.slice(f, f + n)).map_err(|e| format!("seed_frames: {:?}", e))?;
                f += n;
            }
            from
        };
        let mut f = start;
        while f < end {
            let n = call.min(end - f);
            s.add(e, &x.slice(f, f + n)).map_err(|e| format!("add_frames: {:?}", e))?;
            f += n;
        }
        v.push(s);
    }
    Ok(v)
}

struct Whole {
    m: Model,
    s: EbuR128,
}

fn whole(x: &Buf, rate: u32, mode: u8) -> Whole {
    let mut m = Model::new(x.channels() as u32, rate, mode).unwrap();
    m.add(x).unwrap();
    let mut s = new(x.channels() as u32, rate, mode_of(mode)).unwrap();
    s.add(Entry::F64, x).unwrap();
    Whole { m, s }
}

fn val(e: Exp) -> Option<f64> {
    match e {
        Exp::Energy(e) => Some(loudness(e)),
        Exp::Val(v, _) => Some(v),
        _ => None,
    }
}

fn compare_global(c: &mut Ch, w: &Whole, parts: &[EbuR128], counts: bool) -> Res {
    c.checked();
    let g = EbuR128::loudness_global_multiple(parts.iter()).map_err(|e| format!("multiple: {:?}", e))?;
    let one = w.s.loudness_global().unwrap();
    let (e, _, _) = w.m.integrated();
    c.outcome((g * 1e6) as i64 as u64);
    match val(e) {
        Some(x) => {
            if !((g - x).abs() <= TOL || g == x) {
                return Err(format!("loudness_global_multiple over {} chunks = {:?}, whole stream has {:?}", parts.len(), g, x));
            }
        }
        None => {
            if !((g - one).abs() <= 0.11 || g == one) {
                return Err(format!("loudness_global_multiple over {} chunks = {:?}, whole stream gave {:?}", parts.len(), g, one));
            }
        }
    }
    if counts {
        // all blocks are within 10 LU: nobody gates relatively, so the counts add up
        let mut n = 0;
        let mut s = 0.0;
        for p in parts {
            if let Some((k, e)) = p.gating_block_count_and_energy() {
                n += k;
                s += e;
            }
        }
        let (wn, we) = w.s.gating_block_count_and_energy().unwrap_or((0, 0.0));
        if n != wn || (s - we).abs() > 1e-6 * we {
            return Err(format!("{} blocks of energy {:?} in the chunks, {} of {:?} in the whole stream", n, s, wn, we));
        }
    }
    Ok(())
}

/// The largest peaks over the chunks are those of the stream.
fn compare_peaks(c: &mut Ch, w: &Whole, parts: &[EbuR128]) -> Res {
    c.checked();
    for ch in 0..w.m.channels as u32 {
        if w.m.has(SP) {
            let p = parts.iter().map(|p| p.sample_peak(ch).unwrap()).fold(0.0, f64::max);
            if p != w.m.sp[ch as usize] {
                return Err(format!("largest sample_peak({}) over the chunks is {:?}, stream has {:?}", ch, p, w.m.sp[ch as usize]));
            }
        }
        if w.m.has(TP) {
            let p = parts.iter().map(|p| p.true_peak(ch).unwrap()).fold(0.0, f64::max);
            let e = w.m.true_peak(ch as usize);
            if !e.admits(p) {
                return Err(format!("largest true_peak({}) over the chunks is {:?}, expected {:?}", ch, p, e));
            }
        }
    }
    Ok(())
}

/// Audio of 100 ms slots with the given levels (dB).
fn slots(stream: u64, ch: usize, s100: usize, levels: &[f64]) -> Buf {
    let v: Vec<Buf> = levels.iter().enumerate().map(|(i, l)| wide(stream, ch, i * s100, s100, db(*l))).collect();
    concat(&v)
}

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    const R: u32 = 4000;
    const S100: usize = 400;
    let n = if t { 20 } else { 17 };
    let levels: Vec<f64> = (0..n).map(|i| [-14.0, -16.0, -30.0, -15.0, -45.0, -13.0, -20.0][i * 3 % 7]).collect();
    let x = slots(301, 1, S100, &levels);
    let modes = [I | TP, I | HIST];
    let wholes: Vec<Whole> = modes.iter().map(|m| whole(&x, R, *m)).collect();
    v.push(space(
        "all-cut-sets",
        format!("a {} x 100 ms stream at 4 kHz cut at every subset of its 100 ms boundaries from 400 ms on, with and without histogram", n),
        move |c| {
            let mi = c.pick(2);
            let mut cuts = vec![];
            let mut h = mi as u64;
            for k in 4..n {
                if c.flag() {
                    cuts.push(k * S100);
                    h = mix(h, k as u64);
                }
            }
            c.say(|| format!("cuts {:?}", cuts));
            c.state(h);
            let parts = segments(&x, R, modes[mi], &cuts, 3 * S100, S100, Entry::F64, usize::MAX, usize::MAX)?;
            compare_global(c, &wholes[mi], &parts, false)?;
            compare_peaks(c, &wholes[mi], &parts)
        },
    ));
    let k = if t { 10 } else { 8 };
    v.push(space(
        "level-patterns",
        format!("all sequences of {} x 200 ms over 3 levels (above, below both gates), every single cut", k),
        move |c| {
            let mut l = vec![];
            let mut h = 0;
            for _ in 0..k {
                let a = c.of(&[-14.0, -29.0, -73.0]);
                h = mix(h, (a * -8.0) as u64);
                l.push(a);
                l.push(a);
            }
            c.state(h);
            let x = slots(303, 1, S100, &l);
            let w = whole(&x, R, I);
            for cut in 4..2 * k {
                let parts = segments(&x, R, I, &[cut * S100], 3 * S100, S100, Entry::F64, usize::MAX, usize::MAX)?;
                compare_global(c, &w, &parts, false).map_err(|e| format!("cut at {} ms: {}", cut * 100, e))?;
            }
            Ok(())
        },
    ));
    v.push(space(
        "block-count",
        "2.4 s of constant level, rates 4000/8000/44100, stereo: all single cuts and all pairs; the chunks' block counts and energies add up to the stream's".to_string(),
        move |c| {
            let rate = c.of(&[4000u32, 8000, 44100]);
            let s = (rate as usize + 5) / 10;
            let n = 24;
            let a = c.range(4, n - 1);
            let b = c.range(4, n);
            if rate == 44100 && !t && (a * 7 + b) % 6 != 0 {
                return Ok(());
            }
            let mut cuts = vec![a * s];
            if b != n && b > a {
                cuts.push(b * s);
            } else if b != n {
                return Ok(());
            }
            let x = wide(305, 2, 0, n * s, 0.2);
            let w = whole(&x, rate, I | SP);
            c.state(mix(rate as u64, (a * 100 + b) as u64));
            let parts = segments(&x, rate, I | SP, &cuts, 3 * s, s, Entry::F64, usize::MAX, usize::MAX)?;
            compare_global(c, &w, &parts, true)?;
            compare_peaks(c, &w, &parts)
        },
    ));
    v.push(space(
        "formats-rates-channels",
        "all 8 entry points x rates 8000..192000 x 1/2/3/5/6 channels x cut positions, seed and audio in calls of various sizes, true peaks included".to_string(),
        move |c| {
            let e = c.of(&ENTRIES);
            let rate = c.of(if t { &[8000u32, 11025, 22050, 44100, 48000, 96000, 192000][..] } else { &[8000u32, 44100, 48000, 96000][..] });
            let ch = c.of(&[1usize, 2, 3, 5, 6]);
            let cuts = c.of(&[vec![4usize], vec![7], vec![5, 6, 11], vec![8, 9]]);
            let call = c.of(&[usize::MAX, 997]);
            let scall = c.of(&[usize::MAX, 61]);
            let s = (rate as usize + 5) / 10;
            let x = grid(307, ch, 0, 12 * s, 0.5);
            let w = whole(&x, rate, I | TP);
            c.state(mix(mix(rate as u64, ch as u64), e as u64 * 64 + cuts.len() as u64 * 8 + cuts[0] as u64));
            let cuts: Vec<usize> = cuts.iter().map(|k| k * s).collect();
            let parts = segments(&x, rate, I | TP, &cuts, 3 * s, s, e, call, scall)?;
            compare_global(c, &w, &parts, true)?;
            compare_peaks(c, &w, &parts)
        },
    ));
    v.push(space(
        "rumble",
        "quiet noise on top of DC, rectangles, 7/20/45 Hz tones and a slow ramp (what the high-pass filter removes), rates 4000..192000, 1/2/6 channels (Unused ones among them), 4 entry points, cut positions, with and without histogram".to_string(),
        move |c| {
            let kind = c.pick(6);
            let rate = c.of(if t { &[4000u32, 8000, 11025, 22050, 44100, 48000, 96000, 192000][..] } else { &[4000u32, 8000, 44100, 48000][..] });
            let ch = c.of(&[1usize, 2, 6]);
            let e = c.of(&[Entry::F64, Entry::PF64, Entry::F32, Entry::PI16]);
            let mode = c.of(&[I, I | HIST | TP]);
            let s = (rate as usize + 5) / 10;
            let cuts = c.of(&[vec![5usize], vec![8], vec![5, 6, 10]]);
            let n = 12 * s;
            let d: Vec<i16> = (0..n * ch)
                .map(|i| {
                    let (f, k) = (i / ch, i % ch);
                    let time = f as f64 / rate as f64;
                    let low = match kind {
                        0 => 1.0,
                        1 => if (time * 3.1) as usize % 2 == 0 { 1.0 } else { -1.0 },
                        2 => (std::f64::consts::TAU * 7.0 * time).sin(),
                        3 => (std::f64::consts::TAU * 20.0 * time + 0.3).cos(),
                        4 => (std::f64::consts::TAU * 45.0 * time).cos(),
                        _ => 1.6 * time / 1.2 - 0.8,
                    };
                    ((low * 0.5 / (1.0 + k as f64 * 0.2) + noise(311, k, f) * 0.01) * 32767.0) as i16
                })
                .collect();
            let x = Buf::Grid(ch, d);
            let w = whole(&x, rate, mode);
            c.state(mix(mix(rate as u64, (ch * 8 + kind) as u64), (e as u64 * 64 + mode as u64) << 8 | cuts[0] as u64));
            let cuts: Vec<usize> = cuts.iter().map(|k| k * s).collect();
            let parts = segments(&x, rate, mode, &cuts, 3 * s, s, e, usize::MAX, usize::MAX)?;
            compare_global(c, &w, &parts, false)?;
            compare_peaks(c, &w, &parts)
        },
    ));
    // loudness range: 2 s overlap plus the seed
    let secs = if t { 12 } else { 10 };
    for hist in [false, true] {
        let lv: Vec<f64> = (0..secs * 10).map(|i| [-14.0, -20.0, -33.0, -17.0, -28.0, -24.0][(i / 10) * 5 % 6] - (i % 7) as f64 * 0.3).collect();
        let x = slots(309, 1, S100, &lv);
        let mode = I | LRA | if hist { HIST } else { 0 };
        let w = whole(&x, R, mode);
        v.push(space(
            if hist { "range-cuts-histogram" } else { "range-cuts" },
            format!("{} s at 4 kHz cut at every subset of its seconds from 3 s on with 2 s overlap and 100 ms / 400 ms / 1 s of seed", secs),
            move |c| {
                let seed = c.of(&[1usize, 4, 10]);
                let mut cuts = vec![];
                let mut h = seed as u64;
                for k in 3..secs {
                    if c.flag() {
                        cuts.push(k * 10 * S100);
                        h = mix(h, k as u64);
                    }
                }
                c.state(h);
                c.checked();
                let parts = segments(&x, R, mode, &cuts, 20 * S100, seed * S100, Entry::F64, usize::MAX, usize::MAX)?;
                let r = EbuR128::loudness_range_multiple(parts.iter()).map_err(|e| format!("multiple: {:?}", e))?;
                let want = w.m.range();
                match val(want) {
                    Some(x) if (r - x).abs() <= TOL => Ok(()),
                    Some(x) => Err(format!("loudness_range_multiple over {} chunks = {:?}, whole stream has {:?}", parts.len(), r, x)),
                    None => Ok(c.ambiguous()),
                }
            },
        ));
    }
    v
}
