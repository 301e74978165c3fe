//! C22: seeding.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::signal::*;
use crate::sut::*;
use ebur128::EbuR128;

const WIN: [u32; 5] = [34, 100, 200, 400, 3000];

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let depth = if t { 7 } else { 6 };
    v.push(space(
        "seed-add-sequences",
        format!("all sequences of {} calls over 7 (seed 1/3/14/100 frames, add 1/12/31 frames), 2 modes, rate 30 stereo; model comparison and exact invariance of all results over each seeding", depth),
        move |c| {
            let mode = c.of(&[NOHIST, ALL]);
            let mut l = Lock::rust(2, 30, mode)?.windows(&WIN);
            let mut from = 0;
            for _ in 0..depth {
                let k = c.pick(7);
                let n = [1usize, 3, 14, 100, 1, 12, 31][k];
                if k < 4 {
                    let before = if c.fresh() { hash_results(&l.sut) } else { 0 };
                    l.seed(c, ENTRIES[from % 8], &grid(801, 2, from, n, 0.8))?;
                    if c.fresh() && before != hash_results(&l.sut) {
                        return Err("seeding changed a result".into());
                    }
                } else {
                    l.add(c, ENTRIES[(from / 3) % 8], &grid(801, 2, from, n, 0.6))?;
                }
                from += n;
            }
            Ok(())
        },
    ));
    v.push(space(
        "entry-points",
        "all 8 x 8 pairs of seed and add entry points x 1..=8, 16, 63, 64 channels x seeds of 0/1/11/12/13/40 frames (also split in two calls) at the start, mid-block and at a block boundary; types with Unused".to_string(),
        move |c| {
            let se = c.of(&ENTRIES);
            let ae = if t { c.of(&ENTRIES) } else { c.of(&[Entry::F64, Entry::PI16, Entry::PF32]) };
            let chn = c.of(&[1usize, 2, 3, 4, 5, 6, 7, 8, 16, 63, 64]);
            let n = c.of(&[0usize, 1, 11, 12, 13, 40]);
            let at = c.of(&[0usize, 5, 12]);
            let cut = c.flag();
            let mut l = Lock::rust(chn as u32, 30, NOHIST)?.windows(&[34, 100, 400]);
            if chn > 4 {
                l.set_channel_map(c, &super::c02::map_all(chn))?;
            }
            l.add(c, ae, &grid(803, chn, 0, at, 0.5))?;
            if cut && n > 1 {
                l.seed(c, se, &grid(805, chn, 0, n / 2, 0.9))?;
                l.seed(c, se, &grid(805, chn, n / 2, n - n / 2, 0.9))?;
            } else {
                l.seed(c, se, &grid(805, chn, 0, n, 0.9))?;
            }
            l.add(c, ae, &grid(803, chn, at, 13, 0.5))?;
            l.add(c, ae, &grid(803, chn, at + 13, 3, 0.5))
        },
    ));
    v.push(space(
        "unused-channels",
        "1..=7 channels, every subset of them Unused, x 4 seed entry points: seeding in mid-stream warms up exactly the used channels; model comparison".to_string(),
        move |c| {
            let chn = 1 + c.pick(if t { 9 } else { 7 });
            let sub = c.pick(1 << chn);
            let se = if t { c.of(&ENTRIES) } else { c.of(&[Entry::F64, Entry::I16, Entry::PF32, Entry::PI32]) };
            let mut l = Lock::rust(chn as u32, 30, NOHIST)?.windows(&[34, 100, 400]);
            let all = super::c02::map_all(chn);
            let map: Vec<_> = (0..chn).map(|i| if sub >> i & 1 == 1 { ebur128::Channel::Unused } else { all[i] }).collect();
            if c.flag() {
                l.set_channel_map(c, &map)?;
            } else {
                for (i, x) in map.iter().enumerate() {
                    l.set_channel(c, i as u32, *x)?;
                }
            }
            l.add(c, Entry::F64, &grid(803, chn, 0, 5, 0.5))?;
            l.seed(c, se, &grid(805, chn, 0, 40, 0.9))?;
            l.add(c, Entry::F32, &grid(803, chn, 5, 14, 0.5))
        },
    ));
    v.push(space(
        "every-position",
        "a 25-frame seed at every frame 0..=130 of a stream fed in calls of 1/7/130 frames, mono, rate 30, all modes: block phase, windows, peaks".to_string(),
        |c| {
            let at = c.pick(131);
            let size = c.of(&[1usize, 7, 130]);
            let mode = c.of(&[NOHIST, ALL]);
            let mut l = Lock::rust(1, 30, mode)?.windows(&WIN);
            let mut f = 0;
            while f < 131 {
                if f <= at && at < f + size {
                    l.add(c, Entry::F64, &wide(807, 1, f, at - f, 0.4))?;
                    l.seed(c, Entry::F64, &wide(809, 1, 0, 25, 1.5))?;
                    l.add(c, Entry::F64, &wide(807, 1, at, f + size - at, 0.4))?;
                } else {
                    l.add(c, Entry::F64, &wide(807, 1, f, size, 0.4))?;
                }
                f += size;
            }
            Ok(())
        },
    ));
    v.push(space(
        "like-preceding-audio",
        "rates 30..192000: seed(a) + add(b) against add(a) + add(b) in another analyser: windows inside b and the peaks of the last call are the same, for every split of a (lengths around the interpolator and 100 ms)".to_string(),
        move |c| {
            let rate = c.of(&[30u32, 34, 8000, 44100, 48000, 96000, 192000]);
            let chn = c.of(&[1usize, 2, 5]);
            let s = (rate as usize + 5) / 10;
            let na = c.of(&[1usize, 5, 11, 12, 13, 23, 24, 25, 48, s, 3 * s + 1]);
            let e = c.of(&[Entry::F64, Entry::I16, Entry::PF32, Entry::PI32]);
            let split = c.of(&[0usize, 1, na / 2]);
            let nb = 4 * s;
            let mode = NOHIST;
            let mk = || EbuR128::new(chn as u32, rate, mode_of(mode)).unwrap();
            let (mut x, mut y) = (mk(), mk());
            let (a, b) = if c.flag() {
                // noise on top of DC and of a 20 Hz tone
                let d: Vec<i16> = (0..(na + nb) * chn)
                    .map(|i| {
                        let (f, k) = (i / chn, i % chn);
                        let low = if k % 2 == 0 { 1.0 } else { (std::f64::consts::TAU * 20.0 * f as f64 / rate as f64 + 0.4).cos() };
                        ((low * 0.6 + noise(813, k, f) * 0.02) * 32767.0) as i16
                    })
                    .collect();
                let all = Buf::Grid(chn, d);
                (all.slice(0, na), all.slice(na, na + nb))
            } else {
                (grid(811, chn, 0, na, 0.8), grid(811, chn, na, nb, 0.5))
            };
            x.seed(e, &a.slice(0, split)).unwrap();
            x.seed(e, &a.slice(split, na)).unwrap();
            y.add(e, &a.slice(0, split)).unwrap();
            y.add(e, &a.slice(split, na)).unwrap();
            for k in [(0, 1), (1, 9), (9, nb - 1), (nb - 1, nb)] {
                x.add(e, &b.slice(k.0, k.1)).unwrap();
                y.add(e, &b.slice(k.0, k.1)).unwrap();
                c.checked();
                let n = k.1;
                c.state(mix(mix(rate as u64, (na * 8 + chn) as u64), (n * 64 + split) as u64 * 8 + e as u64));
                for w in [1u32, 34, 100, 200, 399, 400] {
                    let f = rate as usize * w as usize / 1000;
                    if f == 0 || f > n {
                        continue;
                    }
                    let (p, q) = (x.window(w), y.window(w));
                    let ok = match (p, q) {
                        (Ok(p), Ok(q)) => close(p, q),
                        _ => false,
                    };
                    if !ok {
                        return Err(format!("loudness_window({}) after {} frames: {:?} with seeding, {:?} with preceding audio", w, n, p, q));
                    }
                }
                for i in 0..chn as u32 {
                    for (name, p, q) in [
                        ("prev_sample_peak", Sut::prev_sample_peak(&x, i), Sut::prev_sample_peak(&y, i)),
                        ("prev_true_peak", Sut::prev_true_peak(&x, i), Sut::prev_true_peak(&y, i)),
                    ] {
                        let ok = matches!((p, q), (Ok(p), Ok(q)) if close(p, q));
                        if !ok {
                            return Err(format!("{}({}) after {} frames: {:?} with seeding, {:?} with preceding audio", name, i, n, p, q));
                        }
                    }
                }
            }
            let n = x.gating_block_count_and_energy().map_or(0, |g| g.0);
            if n != 1 {
                return Err(format!("{} gating blocks after 400 ms of added audio", n));
            }
            Ok(())
        },
    ));
    v.push(space(
        "with-reconfiguration",
        format!("all sequences of {} operations over 9 (seed, add, reset, rate, channels, window, channel type, history): model comparison", if t { 6 } else { 5 }),
        move |c| {
            let mode = c.of(&[NOHIST, ALL]);
            let mut l = Lock::rust(2, 30, mode)?.windows(&WIN);
            for i in 0..if t { 6 } else { 5 } {
                let st = 821 + i as u64;
                let chn = l.m.channels;
                match c.pick(9) {
                    0 | 8 if i == 0 => l.seed(c, Entry::F32, &grid(st, chn, 0, 20, 0.9))?,
                    0 => l.seed(c, Entry::F32, &grid(st, chn, 0, 20, 0.9))?,
                    1 => l.add(c, Entry::F64, &wide(st, chn, 0, 14, 0.7))?,
                    2 => l.reset(c)?,
                    3 => {
                        let r = if l.m.rate == 30 { 34 } else { 30 };
                        l.change_parameters(c, chn as u32, r)?
                    }
                    4 => l.change_parameters(c, if chn == 2 { 3 } else { 2 }, 30)?,
                    5 => {
                        let w = if l.m.window == 3000 { 3300 } else { 0 };
                        l.set_max_window(c, w)?
                    }
                    6 => l.set_channel(c, 1, ebur128::Channel::Mp060)?,
                    7 => l.set_max_history(c, 3000)?,
                    _ => l.add(c, Entry::PI16, &grid(st, chn, 0, 100, 0.5))?,
                }
            }
            Ok(())
        },
    ));
    v
}
