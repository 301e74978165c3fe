//! C04: loudness range.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::signal::*;
use crate::sut::*;

const FOCUS: u32 = W_CONF | W_ST | W_LRA;

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let depth = if t { 9 } else { 7 };
    v.push(space(
        "second-levels",
        format!("all sequences of {} one-second segments over 5 levels, rate 20/30 mono, comparison after every second", depth),
        move |c| {
            let rate = c.of(&[30u32, 34]);
            let s = (rate as usize + 5) / 10 * 10;
            let mut l = Lock::rust(1, rate, LRA)?.what(FOCUS);
            for i in 0..depth - (rate == 34) as usize {
                let a = c.of(&[-64.0, -46.0, -34.0, -22.0, -8.0]);
                l.add(c, Entry::F64, &wide(51, 1, i * s, s, db(a)))?;
            }
            Ok(())
        },
    ));
    // percentile ranks: n distinct block levels for every n, many arrangements
    v.push(space(
        "percentile-ranks",
        format!("every block count 1..={} x 4 level shapes (rising, falling, interleaved, plateaus), comparison after every block", if t { 1200 } else { 300 }),
        move |c| {
            let shape = c.pick(4);
            let max = if t { 1200 } else { 300 };
            let mut l = Lock::rust(1, 30, LRA)?.what(FOCUS);
            for i in 0..max + 3 {
                let x = i as f64 / 1200.0;
                let lv = match shape {
                    0 => -36.0 + 30.0 * x,
                    1 => -6.0 - 30.0 * x,
                    2 => -20.0 + if i % 2 == 0 { 14.0 * x } else { -14.0 * x },
                    _ => -30.0 + 4.0 * ((i / 7) % 5) as f64,
                };
                l.add(c, Entry::F64, &wide(53, 1, i * 30, 30, db(lv)))?;
            }
            Ok(())
        },
    ));
    // relative gate of -20 LU
    v.push(space(
        "relative-gate",
        format!("{} level differences (10..30 LU) x 4 length ratios", if t { 4001 } else { 801 }),
        move |c| {
            let k = c.pick(if t { 4001 } else { 801 });
            let (p, q) = c.of(&[(6usize, 6usize), (3, 12), (12, 3), (20, 5)]);
            let d = 10.0 + 20.0 * k as f64 / if t { 4000.0 } else { 800.0 };
            let mut l = Lock::rust(1, 30, LRA)?.what(FOCUS);
            let b = wide(55, 1, 0, p * 30, db(-10.0));
            l.sut.add(Entry::F64, &b).unwrap();
            l.m.add(&b).unwrap();
            l.add(c, Entry::F64, &wide(55, 1, p * 30, q * 30, db(-10.0 - d)))
        },
    ));
    v.push(space(
        "absolute-gate",
        format!("{} levels around -70 LUFS with a 20 dB louder middle", if t { 2401 } else { 601 }),
        move |c| {
            let k = c.pick(if t { 2401 } else { 601 });
            let a = super::c03::amp_for(30, 1, -73.0 + 6.0 * k as f64 / if t { 2400.0 } else { 600.0 });
            let mut l = Lock::rust(1, 30, LRA)?.what(FOCUS);
            l.add(c, Entry::F64, &wide(57, 1, 0, 120, a))?;
            l.add(c, Entry::F64, &wide(57, 1, 120, 60, a * 4.0))?;
            l.add(c, Entry::F64, &wide(57, 1, 180, 60, a))
        },
    ));
    // phase of the 1 s hop against calls, partial seconds
    v.push(space(
        "hop-phase",
        "first call of every length 0..=150 frames then calls of every constant size in {1,7,29,30,31,97}, 6 s, rate 30".to_string(),
        |c| {
            let first = c.pick(151);
            let size = c.of(&[31usize, 1, 7, 29, 30, 97]);
            let n = 190;
            let mut l = Lock::rust(1, 30, LRA)?.what(FOCUS);
            let sig = |f: usize, k: usize| {
                let d = (f..f + k).map(|i| noise(59, 0, i) * db(-10.0 - 15.0 * noise(61, 0, i / 25))).collect();
                Buf::F64(1, d)
            };
            l.add(c, Entry::F64, &sig(0, first))?;
            let mut from = first;
            while from < n {
                let k = size.min(n - from);
                l.add(c, Entry::F64, &sig(from, k))?;
                from += k;
            }
            Ok(())
        },
    ));
    v.push(space(
        "long-streams",
        format!("{} short-term blocks, comparison at geometrically growing block counts", if t { 1_000_000 } else { 110_000 }),
        move |c| {
            let pat = c.pick(3);
            let n = if t { 1_000_000 } else { 110_000 };
            let mut l = Lock::rust(1, 30, LRA)?.what(FOCUS);
            let mut next = 50;
            for i in 0..n {
                let lv = match pat {
                    0 => -24.0 + 10.0 * noise(63, 0, i / 3),
                    1 => -40.0 + 35.0 * noise(65, 0, i / 4),
                    _ => -60.0 + 55.0 * i as f64 / n as f64,
                };
                let b = wide(67, 1, i * 30, 30, db(lv));
                l.sut.add(Entry::F64, &b).map_err(|e| format!("{:?}", e))?;
                l.m.add(&b).unwrap();
                if i == next || i + 1 == n {
                    next = next * 11 / 10 + 1;
                    l.after(c)?;
                }
            }
            Ok(())
        },
    ));
    v.push(space(
        "real-rates",
        "rates 8000/44100/48000(/96000): all sequences of 2 x 2.5 s + 1.5 s over 3 levels, stereo".to_string(),
        move |c| {
            let rate = c.of(if t { &[8000u32, 22050, 44100, 48000, 96000][..] } else { &[8000u32, 44100, 48000][..] });
            let mut l = Lock::rust(2, rate, LRA)?.what(FOCUS);
            let mut from = 0;
            for x in [25usize, 25, 15] {
                let a = c.of(&[-10.0, -24.0, -38.0]);
                let n = rate as usize * x / 10;
                l.add(c, Entry::F32, &grid(69, 2, from, n, db(a)))?;
                from += n;
            }
            Ok(())
        },
    ));
    v.push(super::in_context(if t { 7 } else { 5 }, FOCUS, &[LRA, NOHIST]));
    v
}
