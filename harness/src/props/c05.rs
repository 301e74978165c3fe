//! C05: histogram mode.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::signal::*;
use crate::sut::*;
use std::sync::OnceLock;

const FOCUS: u32 = W_CONF | W_GLOB | W_LRA;

/// One isolated 400 ms block of unit noise at rate 30, starting from silence.
fn unit_block() -> f64 {
    static U: OnceLock<f64> = OnceLock::new();
    *U.get_or_init(|| {
        let mut m = Model::new(1, 30, I).unwrap();
        m.add(&wide(71, 1, 0, 12, 1.0)).unwrap();
        m.energy_last(12)
    })
}

/// Loudness offset within a bin in units of bins.
fn level_of(bin: f64) -> f64 {
    -70.0 + bin / 10.0
}

/// An analyser holding exactly one block of the given loudness.
fn one_block(c: &mut Ch, l: &mut Lock<ebur128::EbuR128>, lufs: f64) -> Res {
    let a = (energy(lufs) / unit_block()).sqrt();
    l.add(c, Entry::F64, &wide(71, 1, 0, 12, a))
}

/// Appends a separate block: the reconfiguration round trip clears filters and buffers but keeps the history.
fn isolate(l: &mut Lock<ebur128::EbuR128>) {
    l.sut.change_parameters(1, 34).unwrap();
    l.m.change_parameters(1, 34).unwrap();
    l.sut.change_parameters(1, 30).unwrap();
    l.m.change_parameters(1, 30).unwrap();
}

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    v.push(space(
        "every-bin",
        "one block at 5 positions (2%, 30%, 50%, 70%, 98%) of every bin -5..1050 (below the gate to above the last bin)".to_string(),
        |c| {
            let bin = c.pick(1055) as f64 - 5.0;
            let p = c.of(&[0.5, 0.02, 0.98, 0.3, 0.7]);
            let mut l = Lock::rust(1, 30, I | HIST)?.what(FOCUS);
            c.say(|| format!("block at bin {}", bin + p));
            one_block(c, &mut l, level_of(bin + p))
        },
    ));
    v.push(space(
        "bin-boundaries",
        "one block 1e-6 bins below and above every bin boundary".to_string(),
        |c| {
            let bin = c.pick(1001) as f64;
            let p = c.of(&[1e-5, -1e-5, 1e-4, -1e-4]);
            let mut l = Lock::rust(1, 30, I | HIST)?.what(FOCUS);
            one_block(c, &mut l, level_of(bin + p))
        },
    ));
    // all pairs of bins on a grid, second one also dense around the relative gate
    let step = if t { 5 } else { 20 };
    v.push(space(
        "bin-pairs",
        format!("two isolated blocks: all pairs of bins on a grid of {}; multiplicities 1..3", step),
        move |c| {
            let i = c.pick(1000 / step) * step;
            let j = c.pick(1000 / step) * step;
            let m = c.range(1, 3);
            let mut l = Lock::rust(1, 30, I | HIST)?.what(FOCUS);
            one_block(c, &mut l, level_of(i as f64 + 0.5))?;
            for _ in 0..m {
                isolate(&mut l);
                one_block(c, &mut l, level_of(j as f64 + 0.5))?;
            }
            Ok(())
        },
    ));
    v.push(space(
        "pairs-near-relative-gate",
        "loud block at every 37th bin, quiet block at all 60 bins around the resulting relative gate, multiplicities 1..4".to_string(),
        |c| {
            let i = 130 + c.pick(23) * 37;
            let d = 70 + c.pick(60);
            let m = c.range(1, 4);
            let mut l = Lock::rust(1, 30, I | HIST)?.what(FOCUS);
            one_block(c, &mut l, level_of((i - d) as f64 + 0.5))?;
            for _ in 0..m {
                isolate(&mut l);
                one_block(c, &mut l, level_of(i as f64 + 0.5))?;
            }
            Ok(())
        },
    ));
    let depth = if t { 8 } else { 7 };
    v.push(space(
        "hop-levels",
        format!("all sequences of {} 100 ms hops over 5 levels, stereo", depth),
        move |c| {
            let mut l = Lock::rust(2, 30, I | HIST)?.what(FOCUS);
            for i in 0..depth {
                let a = c.of(&super::c03::LEVELS);
                l.add(c, Entry::F64, &wide(73, 2, i * 3, 3, db(a + 10.0)))?;
            }
            Ok(())
        },
    ));
    let depth = if t { 8 } else { 7 };
    v.push(space(
        "range-levels",
        format!("all sequences of {} one-second segments over 5 levels with the range histogram", depth),
        move |c| {
            let mut l = Lock::rust(1, 30, LRA | I | HIST)?.what(FOCUS);
            for i in 0..depth {
                let a = c.of(&[-64.0, -46.0, -34.0, -22.0, -8.0]);
                l.add(c, Entry::F64, &wide(75, 1, i * 30, 30, db(a)))?;
            }
            Ok(())
        },
    ));
    v.push(space(
        "range-percentiles",
        format!("every short-term block count up to {} x 5 level shapes, incl. the extreme bins", if t { 1500 } else { 400 }),
        move |c| {
            let shape = c.pick(5);
            let n = if t { 1500 } else { 400 };
            let mut l = Lock::rust(1, 30, LRA | I | HIST)?.what(FOCUS);
            for i in 0..n {
                let x = i as f64 / n as f64;
                let lv = match shape {
                    0 => -36.0 + 30.0 * x,
                    1 => -6.0 - 30.0 * x,
                    2 => -20.0 + if i % 2 == 0 { 14.0 * x } else { -14.0 * x },
                    3 => -66.0 + 16.0 * noise(77, 0, i / 3),
                    _ => 20.0 + 16.0 * noise(77, 0, i / 3),
                };
                l.add(c, Entry::F64, &wide(79, 1, i * 30, 30, db(lv)))?;
            }
            Ok(())
        },
    ));
    v.push(space(
        "long-streams",
        format!("{} blocks of varying level", if t { 300_000 } else { 60_000 }),
        move |c| {
            let pat = c.pick(3);
            let n = if t { 300_000usize } else { 60_000 };
            let mut l = Lock::rust(1, 30, LRA | I | HIST)?.what(FOCUS);
            let mut next = 50;
            let mut done = 0;
            while done < n {
                let d = (done * 3..(done + 50) * 3)
                    .map(|f| {
                        let lv = match pat {
                            0 => -20.0 + 8.0 * noise(81, 0, f / 40),
                            1 => -30.0 + 50.0 * noise(81, 0, f / 40),
                            _ => -70.0 + 100.0 * (f / 3) as f64 / n as f64,
                        };
                        noise(83, 0, f) * db(lv)
                    })
                    .collect();
                let b = Buf::F64(1, d);
                l.sut.add(Entry::F64, &b).map_err(|e| format!("{:?}", e))?;
                l.m.add(&b).unwrap();
                done += 50;
                if done >= next {
                    l.after(c)?;
                    next = next * 3 / 2;
                }
            }
            l.after(c)
        },
    ));
    let big = if t { 2_000_000usize } else { 200_000 };
    v.push(space(
        "full-bins",
        format!("{} blocks of a constant level, or of two levels far apart, all in one or two bins", big),
        move |c| {
            let levels = c.of(&[[-23.0, -23.0], [-23.0, -38.0], [-5.0, -23.0]]);
            let mut l = Lock::rust(1, 16, if t { I | HIST } else { LRA | I | HIST })?.what(FOCUS);
            // 2 frames per 100 ms
            let unit = square(10_000, levels[0]);
            let other = square(10_000, levels[1]);
            let n = big / 5_000;
            for i in 0..n {
                let b = if i % 3 == 2 { &other } else { &unit };
                l.sut.add(Entry::F64, b).map_err(|e| format!("{:?}", e))?;
                l.m.add(b).unwrap();
                if i % (n / 6) == 3 {
                    l.after(c)?;
                }
            }
            l.after(c)
        },
    ));
    v.push(space(
        "real-rates",
        "rates 44100/48000: all sequences of 3 x 1.5 s over 4 levels, stereo, all modes".to_string(),
        move |c| {
            let rate = c.of(&[44100u32, 48000]);
            let n = rate as usize * 3 / 2;
            let mut l = Lock::rust(2, rate, ALL & !32)?.what(FOCUS);
            for i in 0..3 {
                let a = c.of(&[-20.0, -58.0, -6.0, -30.0]);
                l.add(c, Entry::F32, &grid(85, 2, i * n, n, db(a)))?;
            }
            Ok(())
        },
    ));
    v.push(super::in_context(if t { 6 } else { 5 }, FOCUS, &[I | HIST, ALL]));
    v
}

/// A signal of constant energy.
fn square(n: usize, level: f64) -> Buf {
    Buf::F64(1, (0..n).map(|f| if f % 2 == 0 { db(level) } else { -db(level) }).collect())
}
