//! C26: measurements follow the gain, the polarity and the order of the channels.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::signal::*;
use crate::sut::*;
use ebur128::{Channel, EbuR128};

/// What is done to all audio.
#[derive(Clone, Debug)]
struct Change {
    gain: f64,
    /// Channel k of the changed audio is channel order[k] of the original.
    order: Vec<usize>,
}
impl Change {
    fn apply(&self, b: &Buf) -> Buf {
        let c = b.channels();
        let at = |i: usize| b.at(i / c * c + self.order[i % c]) * self.gain;
        match b {
            // (exact: only the sign and the order change)
            Buf::Grid(_, v) if self.gain.abs() == 1.0 => {
                Buf::Grid(c, (0..v.len()).map(|i| v[i / c * c + self.order[i % c]] * self.gain as i16).collect())
            }
            Buf::F32(_, v) => Buf::F32(c, (0..v.len()).map(|i| at(i) as f32).collect()),
            b => Buf::F64(c, (0..b.len()).map(at).collect()),
        }
    }
}

fn loud(name: &str, a: R<f64>, b: R<f64>, shift: f64, tol: f64) -> Res {
    let ok = match (a, b) {
        (Ok(a), Ok(b)) => {
            let low = |x: f64| x < -170.0 - shift.abs();
            (low(a) && low(b)) || (a + shift - b).abs() <= tol
        }
        (Result::Err(a), Result::Err(b)) => a == b,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{} = {:?} became {:?}, not {:+.6} LU", name, a, b, shift))
    }
}

/// Compares the results for original and changed audio.
fn compare(c: &mut Ch, a: &EbuR128, b: &EbuR128, ch: &Change, windows: &[u32]) -> Res {
    let g = ch.gain.abs();
    let shift = 20.0 * g.log10();
    c.checked();
    loud("loudness_momentary", a.momentary(), b.momentary(), shift, 1e-7)?;
    loud("loudness_shortterm", a.shortterm(), b.shortterm(), shift, 1e-7)?;
    for &w in windows {
        loud("loudness_window", a.window(w), b.window(w), shift, 1e-7)?;
    }
    for k in 0..a.channels() {
        let o = ch.order[k as usize] as u32;
        for (n, x, y, tol) in [
            ("sample_peak", a.sample_peak(o), b.sample_peak(k), 1e-6),
            ("prev_sample_peak", a.prev_sample_peak(o), b.prev_sample_peak(k), 1e-6),
            ("true_peak", a.true_peak(o), b.true_peak(k), 1e-5),
            ("prev_true_peak", a.prev_true_peak(o), b.prev_true_peak(k), 1e-5),
        ] {
            let ok = match (x, y) {
                (Ok(x), Ok(y)) => (x * g - y).abs() <= tol * y.abs() + 1e-30,
                (Result::Err(x), Result::Err(y)) => x == y,
                _ => false,
            };
            if !ok {
                return Err(format!("{} of channel {} was {:?} and became {:?} with gain {}", n, o, x, y, ch.gain));
            }
        }
    }
    // With other levels other blocks pass the absolute gate, or other bins are used.
    let (na, nb) = (a.gating_block_count_and_energy(), b.gating_block_count_and_energy());
    if a.mode().bits() & HIST != 0 && g != 1.0 {
        return Ok(());
    }
    if na.map(|x| x.0) != nb.map(|x| x.0) {
        if g == 1.0 {
            return Err(format!("gating blocks {:?} became {:?}", na, nb));
        }
        c.ambiguous();
        return Ok(());
    }
    loud("loudness_global", a.global(), b.global(), shift, 1e-7)?;
    // (threshold and range are about all blocks above the absolute gate, which are not counted)
    if g == 1.0 {
        loud("relative_threshold", Sut::relative_threshold(a), Sut::relative_threshold(b), 0.0, 1e-7)?;
        loud("loudness_range", a.range(), b.range(), 0.0, 1e-7)?;
    }
    Ok(())
}

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let gains = [-1.0, 2.0, 0.125, 128.0, 2f64.powi(-20), 2f64.powi(40), 0.7, -1.9, 1.0];
    let depth = if t { 5 } else { 4 };
    v.push(space(
        "sequences",
        format!("all sequences of {} operations of 9 (adding 7, 50, 130, 200 frames in four formats and layouts, silence, seeding, reset, change of the rate, of the window and history) x 9 gains (-1, 2, 1/8, 128, 2^-20, 2^40, 0.7, -1.9, 1) x 2 orders of 1, 2, 3 or 6 channels x 3 modes, compared after every operation", depth),
        move |c| {
            let n = c.of(&[2usize, 1, 3, 6]);
            let gain = c.of(&gains);
            let bits = c.of(&[NOHIST, ALL, TP | I]);
            let order: Vec<usize> = match n {
                1 => vec![0],
                _ if c.flag() => (0..n).map(|k| (k + 1) % n).collect(),
                _ => (0..n).collect(),
            };
            let ch = Change { gain, order };
            let types = [Channel::Left, Channel::LeftSurround, Channel::Unused, Channel::Mm090, Channel::Center, Channel::Up135];
            let mut a = new(n as u32, 30, mode_of(bits)).map_err(|e| format!("{:?}", e))?;
            let mut b = new(n as u32, 30, mode_of(bits)).map_err(|e| format!("{:?}", e))?;
            for k in 0..n {
                a.set_channel(k as u32, types[k]).unwrap();
                b.set_channel(k as u32, types[ch.order[k]]).unwrap();
            }
            let err = |e: Err| format!("{:?}", e);
            let mut h = mix(bits as u64, gain.to_bits());
            for i in 0..depth {
                let st = 951 + i as u64;
                let amp = [0.5, 0.05, 0.9, 0.2, 0.6][i];
                let op = c.pick(9);
                h = mix(h, op as u64);
                let mut both = |e: Entry, x: Buf, seed: bool| -> Res {
                    let y = ch.apply(&x);
                    let f = if y.fits(e) { e } else if matches!(e, Entry::PI16 | Entry::PF32 | Entry::PF64) { Entry::PF64 } else { Entry::F64 };
                    feed(&mut a, e, &x, seed).map_err(err)?;
                    feed(&mut b, f, &y, seed).map_err(err)
                };
                c.say(|| ["add 7 frames", "add 50 frames", "add 130 frames", "add 200 frames", "add silence", "seed 20 frames", "reset", "change the rate", "change window and history"][op].into());
                match op {
                    0 => both(Entry::F64, wide(st, n, 0, 7, amp), false)?,
                    1 => both(Entry::PI16, grid(st, n, 0, 50, amp), false)?,
                    2 => both(Entry::I32, grid(st, n, 0, 130, amp), false)?,
                    3 => both(Entry::F64, wide(st, n, 0, 200, amp), false)?,
                    4 => both(Entry::F64, wide(st, n, 0, 60, 0.0), false)?,
                    5 => both(Entry::PF64, wide(st, n, 0, 20, amp), true)?,
                    6 => {
                        a.reset();
                        b.reset();
                    }
                    7 => {
                        let r = if a.rate() == 30 { 80 } else { 30 };
                        a.change_parameters(n as u32, r).unwrap();
                        b.change_parameters(n as u32, r).unwrap();
                    }
                    _ => {
                        for s in [&mut a, &mut b] {
                            s.set_max_window(6100).unwrap();
                            // (only blocks above the absolute gate are kept: with a limit other
                            // levels could keep older ones)
                            if gain.abs() == 1.0 {
                                s.set_max_history(3000).unwrap();
                            }
                        }
                    }
                }
                c.state(h);
                let w = a.max_window() as u32;
                compare(c, &a, &b, &ch, &[34, 1000, w])?;
            }
            Ok(())
        },
    ));
    v.push(space(
        "orders",
        "all orders of 2, 3, 4, 5 channels, all rotations and exchanges of 6, 8, 9, 17 and 64, with types, x {30, 48000, 96000, 192000} Hz (above 9 channels: 30) x plain/histogram mode".to_string(),
        move |c| {
            let n = c.of(&[2usize, 3, 4, 5, 6, 8, 9, 17, 64]);
            let mut order: Vec<usize> = (0..n).collect();
            if n <= 5 {
                for k in 0..n {
                    let j = k + c.pick(n - k);
                    order.swap(k, j);
                }
            } else if c.flag() {
                let r = c.pick(n);
                order.rotate_left(r);
            } else {
                let k = c.pick(n);
                let j = (k + c.of(&[1usize, 3, 7])) % n;
                order.swap(k, j);
            }
            let rate = c.of(&[30u32, 48_000, 96_000, 192_000]);
            let bits = c.of(&[NOHIST, ALL]);
            if n > 9 && rate > 30 {
                return Ok(());
            }
            let ch = Change { gain: 1.0, order };
            let mut a = new(n as u32, rate, mode_of(bits)).map_err(|e| format!("{:?}", e))?;
            let mut b = new(n as u32, rate, mode_of(bits)).map_err(|e| format!("{:?}", e))?;
            let types: Vec<Channel> = (0..n).map(|k| TYPES[(k * 5 + 1) % 32]).map(|x| if x == Channel::DualMono { Channel::Left } else { x }).collect();
            a.set_channel_map(&types).unwrap();
            b.set_channel_map(&ch.order.iter().map(|&o| types[o]).collect::<Vec<_>>()).unwrap();
            c.state(ch.order.iter().fold(mix(rate as u64, bits as u64), |h, &o| mix(h, o as u64)));
            if c.fresh() {
                for (st, frames) in [(961, 5), (962, if rate == 30 { 131 } else { 60 })] {
                    let x = wide(st, n, 0, frames, 0.7);
                    feed(&mut a, Entry::F64, &x, false).unwrap();
                    feed(&mut b, Entry::F64, &ch.apply(&x), false).unwrap();
                    compare(c, &a, &b, &ch, &[100, 400])?;
                }
            }
            Ok(())
        },
    ));
    v.push(space(
        "normalise",
        "measured loudness -55..+40 LUFS in steps of 0.37 x targets -60, -23, -14, 0, +29 LUFS x plain/histogram mode x a steady or a varying programme of 8 s: after a gain to the target the programme measures the target (plain within 1e-6 LU, histogram within 0.1 LU), its peaks the gain times the peaks, its range the same".to_string(),
        move |c| {
            let level = -55.0 + c.pick(257) as f64 * 0.37;
            let target = c.of(&[-23.0, -60.0, -14.0, 0.0, 29.0]);
            let bits = c.of(&[NOHIST, ALL]);
            let varying = c.flag();
            let mut x = wide(971, 2, 0, 8 * 80, 1.0);
            if varying {
                if let Buf::F64(_, v) = &mut x {
                    for (i, s) in v.iter_mut().enumerate() {
                        // (at most 3 LU: nothing comes near the gates)
                        *s *= if i / 320 % 2 == 0 { 1.0 } else { 0.72 };
                    }
                }
            }
            let measure = |g: f64| -> (EbuR128, Buf) {
                let mut e = new(2, 80, mode_of(bits)).unwrap();
                let y = Change { gain: g, order: vec![0, 1] }.apply(&x);
                feed(&mut e, Entry::F64, &y, false).unwrap();
                (e, y)
            };
            let l0 = {
                let mut e = new(2, 80, mode_of(NOHIST)).unwrap();
                feed(&mut e, Entry::F64, &x, false).unwrap();
                e.loudness_global().unwrap()
            };
            let db = |d: f64| 10f64.powf(d / 20.0);
            let g1 = db(level - l0);
            let (a, _) = measure(g1);
            let l = a.loudness_global().unwrap();
            let g = db(target - l);
            let (b, _) = measure(g1 * g);
            c.state(mix(mix(bits as u64, varying as u64), mix(level.to_bits(), target.to_bits())));
            c.checked();
            c.say(|| format!("{} LUFS, gain to {}", l, target));
            let m = b.loudness_global().unwrap();
            let tol = if bits & HIST != 0 { 0.1 } else { 1e-6 };
            // (the histogram ends at +30 LUFS, and blocks are louder than the programme)
            let inside = bits & HIST == 0 || (level < 20.0 && target < 20.0);
            if inside && (m - target).abs() > tol {
                return Err(format!("normalised from {} to {} LUFS, but measures {}", l, target, m));
            }
            let (ra, rb) = (a.loudness_range().unwrap(), b.loudness_range().unwrap());
            if inside && (ra - rb).abs() > if bits & HIST != 0 { 0.2 + 1e-9 } else { 1e-6 } {
                return Err(format!("the gain of {} changed the range from {} to {}", g, ra, rb));
            }
            compare(c, &a, &b, &Change { gain: g, order: vec![0, 1] }, &[100, 3000])
        },
    ));
    v
}
