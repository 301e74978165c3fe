//! C14: modes gate results without changing them; queries are pure.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::signal::*;
use crate::sut::*;
use ebur128::EbuR128;

const WIN: [u32; 5] = [34, 100, 400, 2900, 3000];

/// One query by number (see `QUERIES`).
pub fn query(s: &EbuR128, q: usize, ch: u32) -> R<f64> {
    match q {
        0 => s.momentary(),
        1 => s.shortterm(),
        2 => s.window(400),
        3 => s.window(3000),
        4 => s.window(34),
        5 => s.global(),
        6 => Sut::relative_threshold(s),
        7 => Ok(s.gating_block_count_and_energy().map_or(-1.0, |g| g.0 as f64 + g.1)),
        8 => s.range(),
        9 => Sut::sample_peak(s, ch),
        10 => Sut::prev_sample_peak(s, ch),
        11 => Sut::true_peak(s, ch),
        12 => Sut::prev_true_peak(s, ch),
        13 => EbuR128::loudness_global_multiple([s, s].into_iter()).map_err(conv),
        14 => EbuR128::loudness_range_multiple([s, s]).map_err(conv),
        15 => s.window(1_000_000_000),
        16 => Sut::true_peak(s, 77),
        17 => Ok(s.channel_map().len() as f64 + s.max_window() as f64 + s.max_history() as f64 + s.mode().bits() as f64 + s.rate() as f64),
        _ => s.window(0),
    }
}
pub const QUERIES: usize = 19;

fn step(s: &mut EbuR128, k: usize, i: usize) -> R {
    let chn = s.channels() as usize;
    match k {
        0 => s.add(Entry::F64, &wide(321 + i as u64, chn, 0, 14, 0.7)),
        1 => s.add(Entry::I16, &grid(331 + i as u64, chn, 0, 1, 0.9)),
        2 => s.add(Entry::PF32, &grid(341 + i as u64, chn, 0, 97, 0.2)),
        3 => s.seed(Entry::F64, &wide(351 + i as u64, chn, 0, 9, 0.9)),
        4 => Sut::set_max_window(s, 3300 + 100 * i as u32),
        5 => Sut::set_max_history(s, 3000),
        6 => Sut::change_parameters(s, chn as u32, if s.rate() == 30 { 34 } else { 30 }),
        _ => {
            s.reset();
            Ok(())
        }
    }
}

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    v.push(space(
        "mode-bits",
        format!("all 128 combinations of mode bits x 1/2/6 channels x all sequences of {} calls of 4 sizes (also beyond 3 s): which queries succeed, and with which values (lock-step with the model)", if t { 4 } else { 3 }),
        move |c| {
            let bits = c.pick(128) as u8;
            let chn = c.of(&[2usize, 1, 6]);
            let has_m = bits & M == M;
            let r = new(chn as u32, 30, mode_of(bits));
            if !has_m {
                c.checked();
                c.state(bits as u64);
                return match r {
                    Result::Err(crate::sut::Err::InvalidMode) => Ok(()),
                    r => Err(format!("new with mode bits {:#x} gave {:?}", bits, r.map(|_| ()))),
                };
            }
            let mut l = Lock::rust(chn as u32, 30, bits)?.windows(&WIN);
            let mut from = 0;
            for i in 0..if t { 4 } else { 3 } {
                let n = c.of(&[13usize, 1, 29, 100]);
                l.add(c, ENTRIES[i * 3 % 8], &grid(311, chn, from, n, 0.8 / (1 + i) as f64))?;
                from += n;
            }
            Ok(())
        },
    ));
    v.push(space(
        "mode-independence",
        format!("all 64 mode combinations with M, directly against an analyser with all modes fed identically: all sequences of {} operations over 7 (audio, seeding, window, history, rate, reset)", if t { 4 } else { 3 }),
        move |c| {
            let bits = (c.pick(64) << 1) as u8 | M;
            let full = if bits & HIST == 0 { NOHIST } else { ALL };
            let mut a = EbuR128::new(2, 30, mode_of(bits)).unwrap();
            let mut b = EbuR128::new(2, 30, mode_of(full)).unwrap();
            let mut h = bits as u64;
            for i in 0..if t { 4 } else { 3 } {
                let k = c.pick(8);
                c.say(|| format!("operation {}", k));
                // the minimum window depends on mode S: keep both above it
                same("operation", step(&mut a, k, i), step(&mut b, k, i))?;
                h = mix(h, k as u64);
                c.state(h);
                if c.fresh() {
                    c.checked();
                    for ((n, x), (_, y)) in results(&a, &WIN).into_iter().zip(results(&b, &WIN)) {
                        if n == "gating count" || n == "gating energy" {
                            if bits & I != I {
                                continue;
                            }
                        }
                        if let (Ok(x), Ok(y)) = (x, y) {
                            if !close(x, y) {
                                return Err(format!("{} is {:?} with mode bits {:#x} but {:?} with all modes", n, x, bits, y));
                            }
                        }
                    }
                }
            }
            Ok(())
        },
    ));
    v.push(space(
        "shortterm-by-window",
        "no mode S: every maximum window 1..=3400 ms: short-term loudness is available exactly from 3 s on (2.7 to 3 s: unspecified)".to_string(),
        |c| {
            let w = c.range(1, 3400) as u32;
            let bits = c.of(&[M, I, SP, M | HIST]);
            let mut l = Lock::rust(1, 30, bits)?.windows(&[34, 400, 3000]);
            l.set_max_window(c, w)?;
            l.add(c, Entry::F64, &wide(313, 1, 0, 97, 0.4))
        },
    ));
    let depth = if t { 4 } else { 3 };
    v.push(space(
        "query-purity",
        format!("all sequences of {} operations over 8, with each single one of {} queries, all of them forwards and backwards (twice), or none, after each operation; compared with a twin that is queried only at the end", depth, QUERIES),
        move |c| {
            let bits = c.of(&[ALL, NOHIST]);
            let mut a = EbuR128::new(2, 30, mode_of(bits)).unwrap();
            let mut b = EbuR128::new(2, 30, mode_of(bits)).unwrap();
            let mut h = bits as u64;
            for i in 0..depth {
                let k = c.pick(8);
                c.say(|| format!("operation {}", k));
                same("operation", step(&mut a, k, i), Ok(()))?;
                same("operation", step(&mut b, k, i), Ok(()))?;
                h = mix(h, k as u64);
                let last = i + 1 == depth;
                let q = if i + 2 < depth { c.pick(2) * (QUERIES + 1) } else { c.pick(QUERIES + 3) };
                c.say(|| format!("queries {}", q));
                if q < QUERIES {
                    let _ = query(&a, q, 1);
                } else if q == QUERIES + 1 {
                    for q in 0..QUERIES {
                        let _ = query(&a, q, 0);
                    }
                } else if q == QUERIES + 2 {
                    for q in (0..QUERIES).rev() {
                        let x = query(&a, q, 1);
                        let y = query(&a, q, 1);
                        let same = match (x, y) {
                            (Ok(x), Ok(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
                            (x, y) => x == y,
                        };
                        if !same {
                            return Err(format!("query {} gave {:?} and then {:?}", q, x, y));
                        }
                    }
                }
                h = mix(h, q as u64);
                c.state(h);
                if last {
                    c.checked();
                    twins(&a, &b, &WIN, "after queries")?;
                }
            }
            Ok(())
        },
    ));
    v.push(space(
        "channel-index",
        "all channel counts 1..=64 x every queried index 0..=66 and extreme ones x the four peak queries x mode combinations".to_string(),
        |c| {
            let chn = c.range(1, 64);
            let bits = c.of(&[ALL, NOHIST, SP, M]);
            let mut s = EbuR128::new(chn as u32, 30, mode_of(bits)).unwrap();
            s.add(Entry::I16, &grid(317, chn, 0, 3, 0.9)).unwrap();
            c.state(chn as u64 * 256 + bits as u64);
            for i in (0..=66).chain([255, 256, 65536, u32::MAX / 2 + 1, u32::MAX]) {
                for q in 9..13 {
                    c.checked();
                    let need = if q < 11 { SP } else { TP };
                    let r = query(&s, q, i);
                    let ok = if bits & need != need {
                        r == Result::Err(crate::sut::Err::InvalidMode)
                    } else if i as usize >= chn {
                        r == Result::Err(crate::sut::Err::InvalidChannel)
                    } else {
                        r.is_ok()
                    };
                    if !ok {
                        return Err(format!("peak query {} of channel {} of {} with mode {:#x} gave {:?}", q, i, chn, bits, r));
                    }
                }
            }
            Ok(())
        },
    ));
    v
}
