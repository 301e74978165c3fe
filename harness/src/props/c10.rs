//! C10: change_parameters and set_max_window.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::signal::*;
use crate::sut::*;

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let depth = if t { 6 } else { 5 };
    v.push(space(
        "operation-sequences",
        format!("all sequences of {} operations over 12 (adds of 4 sizes, change of rate, channels, both, none, 3 windows, map), 3 modes, rate 30 start; model comparison after every step", depth),
        move |c| {
            let mode = c.of(&[NOHIST, ALL, I]);
            let mut l = Lock::rust(2, 30, mode)?.windows(&[34, 100, 400, 3000, 3400, 5000]);
            for i in 0..depth {
                let from = l.m.n + i * 1000;
                let chn = l.m.channels;
                match c.pick(12) {
                    0 => l.add(c, Entry::F64, &wide(171, chn, from, 14, 0.6))?,
                    1 => l.add(c, Entry::F32, &grid(173, chn, from, 5, 0.9))?,
                    2 => l.add(c, Entry::F64, &wide(175, chn, from, 100, 0.1))?,
                    3 => l.change_parameters(c, chn as u32, 34)?,
                    4 => l.change_parameters(c, 3, l.m.rate)?,
                    5 => l.change_parameters(c, 1, 80)?,
                    6 => l.change_parameters(c, chn as u32, l.m.rate)?,
                    7 => l.set_max_window(c, 3400)?,
                    8 => l.set_max_window(c, 0)?,
                    9 => l.set_max_window(c, 5000)?,
                    10 => l.set_channel(c, 0, ebur128::Channel::LeftSurround)?,
                    _ => l.add(c, Entry::F64, &wide(177, chn, from, 13, 1.5))?,
                }
            }
            Ok(())
        },
    ));
    // reconfiguration at every position, then measure on
    v.push(space(
        "at-every-frame",
        "each of 6 reconfigurations after every number of frames 0..=200, then 150 frames in calls of {1,13,150}; all modes".to_string(),
        |c| {
            let n = c.pick(201);
            let op = c.pick(6);
            let size = c.of(&[13usize, 1, 150]);
            let mode = c.of(&[NOHIST, ALL]);
            let mut l = Lock::rust(2, 30, mode)?.windows(&[34, 100, 400, 3000, 3500]);
            l.add(c, Entry::F64, &wide(181, 2, 0, n, 0.8))?;
            match op {
                0 => l.change_parameters(c, 2, 34)?,
                1 => l.change_parameters(c, 1, 30)?,
                2 => l.change_parameters(c, 4, 80)?,
                3 => l.set_max_window(c, 3050)?,
                4 => l.set_max_window(c, 6000)?,
                _ => l.change_parameters(c, 2, 30)?,
            }
            let mut from = 0;
            let chn = l.m.channels;
            while from < 150 {
                l.add(c, Entry::F64, &wide(183, chn, from, size, 0.5))?;
                from += size;
            }
            Ok(())
        },
    ));
    // all channel count pairs
    v.push(space(
        "channel-pairs",
        format!("all pairs of channel counts 1..=64{}: change, default map, audio in every channel", if t { "" } else { " (second in a grid of 16)" }),
        move |c| {
            let a = c.range(1, 64);
            let b = if t { c.range(1, 64) } else { c.of(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 16, 31, 32, 33, 48, 63, 64]) };
            let rate = c.of(&[30u32, 34]);
            let mut l = Lock::rust(a as u32, 30, ALL)?.windows(&[400]);
            l.add(c, Entry::I16, &grid(185, a, 0, 15, 0.9))?;
            l.change_parameters(c, b as u32, rate)?;
            l.add(c, Entry::PI16, &grid(187, b, 0, 17, 0.7))
        },
    ));
    // rates: the new rate must be effective everywhere (filter, hop, window, oversampling)
    let rates: &[u32] = &[20, 30, 34, 80, 1000, 8000, 44100, 48000, 95999, 96000, 192000];
    v.push(space(
        "rate-pairs",
        "all ordered pairs of 11 rates: 0.5 s, change, 0.7 s (to 3.2 s for small rates), stereo, model comparison".to_string(),
        move |c| {
            let a = c.of(rates);
            let b = c.of(rates);
            let mut l = Lock::rust(2, a, NOHIST)?.windows(&[1, 100, 400, 3000]);
            l.add(c, Entry::I16, &grid(189, 2, 0, a as usize / 2, 0.01))?;
            l.change_parameters(c, 2, b)?;
            let n = if b < 2000 { b as usize * 32 / 10 } else { b as usize * 7 / 10 };
            l.add(c, Entry::I16, &grid(191, 2, 0, n, 0.01))?;
            l.change_parameters(c, 2, a)?;
            l.add(c, Entry::I16, &grid(189, 2, 0, a as usize / 2, 0.02))
        },
    ));
    // repeated window changes
    v.push(space(
        "window-sequences",
        format!("all sequences of {} (window, frames) pairs over 5 windows x 4 lengths, M-only and S modes", if t { 4 } else { 3 }),
        move |c| {
            let mode = c.of(&[I | SP, NOHIST]);
            let mut l = Lock::rust(1, 30, mode)?.windows(&[34, 400, 433, 900, 3000, 4000]);
            let mut from = 0;
            for _ in 0..if t { 4 } else { 3 } {
                let w = c.of(&[0u32, 400, 433, 4000, 901]);
                let n = c.of(&[5usize, 12, 29, 130]);
                l.set_max_window(c, w)?;
                l.add(c, Entry::F64, &wide(193, 1, from, n, 0.5))?;
                from += n;
            }
            Ok(())
        },
    ));
    v
}
