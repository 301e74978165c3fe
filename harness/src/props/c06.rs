//! C06: momentary, short-term and window loudness.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::signal::*;
use crate::sut::*;

const FOCUS: u32 = W_CONF | W_MOM | W_ST | W_WIN;

/// Window lengths that exercise every frame count of a small rate, plus lengths beyond the maximum.
fn windows(rate: u32, max: usize) -> Vec<u32> {
    let mut v = vec![];
    let mut last = usize::MAX;
    for w in 1..=max {
        let f = rate as usize * w / 1000;
        if f != last {
            v.push(w as u32);
            last = f;
        }
    }
    v.push(max as u32);
    for d in [200u32, 201, 250, 300, 1000, 100_000, 10_000_000] {
        v.push(max as u32 + d);
    }
    v.push(u32::MAX);
    v.push(u32::MAX - 1);
    v
}

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    v.push(space(
        "position-x-window",
        "rates 30/31/34/80 and modes M/S: every stream position up to 2.4 wrap-arounds, every window length (in frames), 8 maximum windows, 1-frame calls".to_string(),
        move |c| {
            let rate = c.of(&[30u32, 31, 34, 80]);
            let mode = c.of(&[M, S | HIST, NOHIST]);
            let max = c.of(&[0u32, 1, 433, 3000, 3001, 3050, 3133, 4999, 7000]);
            if rate == 80 && !t && max > 3001 {
                return Ok(());
            }
            let mut l = Lock::rust(1, rate, mode)?.what(FOCUS);
            l.set_max_window(c, max)?;
            l.windows = windows(rate, l.m.window);
            let ring = rate as usize * l.m.window / 1000;
            for i in 0..ring * 24 / 10 + 5 {
                l.add(c, Entry::F64, &wide(91, 1, i, 1, db(-10.0 - 10.0 * noise(92, 0, i / 5))))?;
            }
            Ok(())
        },
    ));
    v.push(space(
        "call-sizes",
        "rate 30 S stereo: constant call sizes 1..=100, positions up to 3 wrap-arounds, all windows of a coarse grid".to_string(),
        |c| {
            let size = c.range(1, 100);
            let first = c.of(&[0usize, 1, 5, 12, 50, 89]);
            let mut l = Lock::rust(2, 30, S)?.what(FOCUS).windows(&[34, 100, 333, 400, 1000, 1500, 2967, 3000]);
            l.add(c, Entry::F64, &wide(93, 2, 0, first, 0.3))?;
            let mut from = first;
            while from < 280 {
                l.add(c, Entry::F64, &wide(93, 2, from, size, 0.3))?;
                from += size;
            }
            Ok(())
        },
    ));
    let depth = if t { 5 } else { 4 };
    v.push(space(
        "size-sequences",
        format!("rate 30 M and S: all sequences of {} calls over sizes {{1,3,11,12,13,31,89,90,91}}", depth),
        move |c| {
            let mode = c.of(&[M, S, LRA | I]);
            let mut l = Lock::rust(1, 30, mode)?.what(FOCUS).windows(&[34, 67, 200, 367, 400, 1234, 3000]);
            let mut from = 0;
            for _ in 0..depth {
                let n = c.of(&[12usize, 1, 3, 11, 13, 31, 89, 90, 91]);
                l.add(c, Entry::F64, &wide(95, 1, from, n, 0.4))?;
                from += n;
            }
            Ok(())
        },
    ));
    v.push(space(
        "max-window-sweep",
        format!("every maximum window 1..={} ms (M) and 3000..={} ms (S), rate 30: queries at the maximum, half of it and beyond after 1.3 wrap-arounds", if t { 3000 } else { 1200 }, if t { 6000 } else { 4200 }),
        move |c| {
            let s_mode = c.flag();
            let w = if s_mode { c.range(3000, if t { 6000 } else { 4200 }) } else { c.range(1, if t { 3000 } else { 1200 }) };
            let rate = c.of(&[30u32, 34, 17]);
            let mut l = Lock::rust(1, rate, if s_mode { S } else { M })?.what(FOCUS);
            l.set_max_window(c, w as u32)?;
            let x = l.m.window as u32;
            l.windows = vec![x, x - 1, x / 2, x / 3 + 1, x + 200, x + 201, x + 500, 400, 2 * x];
            let n = rate as usize * l.m.window * 13 / 10000;
            l.add(c, Entry::F64, &wide(97, 1, 0, n / 2, 0.4))?;
            l.add(c, Entry::F64, &wide(97, 1, n / 2, n / 2 + 1, 0.4))
        },
    ));
    v.push(space(
        "channel-counts",
        "1..=64 channels, all types in use, rate 30, position around the wrap, windows".to_string(),
        |c| {
            let chn = c.range(1, 64);
            let n = c.of(&[12usize, 13, 15, 89, 90, 91, 100]);
            let mut l = Lock::rust(chn as u32, 30, S)?.what(FOCUS).windows(&[34, 100, 400, 2990, 3000]);
            if c.flag() && chn > 1 {
                l.set_channel_map(c, &super::c02::map_all(chn))?;
            }
            l.add(c, Entry::F64, &wide(99, chn, 0, 7, 0.4))?;
            l.add(c, Entry::F64, &wide(99, chn, 7, n, 0.4))
        },
    ));
    // every rate up to a limit: block length, ring size and window arithmetic
    v.push(space(
        "every-rate",
        format!("every rate 16..={} x modes M/S: windows right before and after the ring wraps", if t { 4000 } else { 700 }),
        move |c| {
            let rate = c.range(16, if t { 4000 } else { 700 }) as u32;
            let mode = c.of(&[M, S]);
            let mut l = Lock::rust(1, rate, mode)?.what(FOCUS);
            let w = l.m.window as u32;
            l.windows = vec![w, w - 1, 100, 101, 333, 400, w / 2, w + 200, w + 250];
            let s = l.m.s100;
            let ring = s * l.m.window / 100;
            // keep unstable low-rate filters from overflowing: tiny input, short run
            let a = 1e-3;
            for n in [s * 4 - 1, 2, ring.saturating_sub(s * 4 + 2), 1, s - 1, 2] {
                let from = l.m.n;
                l.add(c, Entry::F64, &wide(101, 1, from, n, a))?;
                if l.m.energy_last(4 * s) > 1e100 || !l.m.energy_last(4 * s).is_finite() {
                    return Ok(());
                }
            }
            Ok(())
        },
    ));
    v.push(space(
        "real-rates",
        format!("rates 8000..{}: positions around block and ring boundaries, windows incl. 1 ms, stereo and 6 channels", if t { 2822400 } else { 192000 }),
        move |c| {
            let rate = c.of(if t {
                &[8000u32, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 88200, 96000, 176400, 192000, 384000, 2822400][..]
            } else {
                &[8000u32, 11025, 22050, 44100, 48000, 96000, 192000][..]
            });
            if rate > 400_000 && c.ctr.executions > 4 {
                // one execution per thread is plenty at this cost
            }
            let mode = c.of(&[S, M]);
            let chn = c.of(&[2usize, 6]);
            let max = c.of(&[0u32, 3217]);
            let mut l = Lock::rust(chn as u32, rate, mode)?.what(FOCUS);
            l.set_max_window(c, max)?;
            let x = l.m.window as u32;
            l.windows = vec![1, 7, 100, 399, 400, x / 2, x - 1, x, x + 200, x + 1000];
            let s = l.m.s100;
            let ring = s * ((l.m.window + 99) / 100);
            let end = ring + s * 2;
            let mut from = 0;
            let mut at = [s / 2, 4 * s, 5 * s + 1, ring - 1, ring, ring + 1, end];
            at.sort();
            for p in at {
                let n = p - from;
                l.add(c, Entry::F32, &grid(103, chn, from, n, 0.5))?;
                from = p;
            }
            Ok(())
        },
    ));
    v.push(space(
        "long-windows",
        "windows of 12 to 130 s (1.6 and 3 s at 2.8224 MHz) at rates 8000..2822400, mono and 3 channels: queries of many lengths after 0.3 s, before and after the ring wraps".to_string(),
        move |c| {
            // rate times window around 2^31 and 2^32 in the last ones
            let (rate, max) = c.of(&[(8000u32, 130_000u32), (44100, 49_000), (48000, 45_000), (192_000, 12_000), (192_000, 23_000), (2_822_400, 1_600), (2_822_400, 3_000)]);
            let chn = if rate < 100_000 { c.of(&[1usize, 3]) } else { 1 };
            let mut l = Lock::rust(chn as u32, rate, if max < 3000 { M } else { S })?.what(FOCUS);
            l.set_max_window(c, max)?;
            let x = l.m.window as u32;
            l.windows = vec![1, 400, 1500, 1523, x / 2, x - 7, x, x + 200, x + 5000];
            let s = l.m.s100;
            let ring = s * ((l.m.window + 99) / 100);
            let mut from = 0;
            for p in [3 * s, 6 * s + 1, ring / 2, ring - 1, ring + 1, ring + 3 * s] {
                if p <= from {
                    continue;
                }
                l.add(c, Entry::F32, &grid(107, chn, from, p - from, 0.5))?;
                from = p;
            }
            Ok(())
        },
    ));
    v.push(super::in_context(if t { 7 } else { 5 }, FOCUS, &[M, S, NOHIST]));
    v
}
