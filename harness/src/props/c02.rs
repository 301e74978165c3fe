//! C02: sample formats, layouts, channel attribution.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::signal::*;
use crate::sut::*;

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];

    // every 16 bit value through every entry point
    v.push(space(
        "all-i16-values",
        "all 65536 i16 values x 8 add entry points, mono, rate 30, as a 12-frame block".to_string(),
        |c| {
            let x = (c.pick(65536) as i32 - 32768) as i16;
            let mut d = vec![0i16; 13];
            d[0] = x;
            d[7] = x / 2;
            d[8] = x.wrapping_neg();
            if x == i16::MIN {
                d[8] = 0;
            }
            let b = Buf::Grid(1, d);
            let e = c.of(&ENTRIES);
            let mut l = Lock::rust(1, 30, TP | I)?.windows(&[34, 100, 400]);
            c.say(|| format!("value {}", x));
            l.add(c, e, &b)
        },
    ));

    // boundary values of the other formats
    v.push(space(
        "i32-boundaries",
        "all i32 values 2^k, 2^k+-1 and negations, extremes, alternating patterns; i32, planar i32 and exact f64 entry points".to_string(),
        |c| {
            let vals = i32_values();
            let x = c.of(&vals);
            let y = c.of(&[0i32, 1, -1, i32::MAX, i32::MIN, 0x1234_5678]);
            let e = c.of(&[Entry::I32, Entry::PI32, Entry::F64, Entry::PF64]);
            let mut d = vec![0i32; 26];
            d[0] = x;
            d[1] = y;
            d[14] = x >> 1;
            d[25] = y;
            let mut l = Lock::rust(2, 30, TP | I)?.windows(&[34, 100, 400]);
            c.say(|| format!("values {} {}", x, y));
            l.add(c, e, &Buf::I32(2, d))
        },
    ));
    v.push(space(
        "f32-patterns",
        "f32 values of every exponent (2^-140..2^20) and mantissa patterns, f32/planar f32/f64 entry points".to_string(),
        |c| {
            let ex = c.pick(160) as i32 - 140;
            let m = c.of(&[1.0f64, 1.5, 1.9999998807907104, -1.0, -1.3333333730697632]);
            let x = (m * 2f64.powi(ex)) as f32;
            let e = c.of(&[Entry::F32, Entry::PF32, Entry::F64, Entry::PF64]);
            let mut d = vec![0f32; 26];
            d[2] = x;
            d[3] = -x / 2.0;
            d[9] = x;
            let mut l = Lock::rust(2, 30, TP | I)?.windows(&[34, 100, 400]);
            c.say(|| format!("value {:e}", x));
            l.add(c, e, &Buf::F32(2, d))
        },
    ));

    // every channel count x every entry point for seeding and adding, distinct content per channel
    v.push(space(
        "channels-x-entries",
        format!(
            "channel counts 1..=64 x 8 add x 8 seed entry points, distinct audio per channel, 2 add calls ({} frames), all modes, all types used",
            if t { "5..=40" } else { "5/17/31" }
        ),
        move |c| {
            let chn = c.range(1, 64);
            let e = c.of(&ENTRIES);
            let s = c.of(&ENTRIES);
            let n = if t { c.range(5, 40) } else { c.of(&[5, 17, 31]) };
            let rate = if c.flag() { 100_000 } else { 30 };
            if rate != 30 && (s != e || n != 17) {
                return Ok(());
            }
            let mut l = Lock::rust(chn as u32, rate, NOHIST)?.windows(&[34, 400]);
            if chn > 1 {
                l.sut.set_channel_map(&map_all(chn)).unwrap();
                l.m.set_channel_map(&map_all(chn)).unwrap();
            }
            if c.fresh() {
                l.seed(c, s, &grid(21, chn, 0, 14, 0.9))?;
                l.add(c, e, &grid(21, chn, 14, n, 0.9))?;
                l.add(c, s, &grid(21, chn, 14 + n, 9, 0.9))?;
            }
            Ok(())
        },
    ));

    // mixtures of formats within one stream
    v.push(space(
        "format-mixtures",
        format!("all sequences of {} add calls over the 8 entry points x lengths {{1,7,12}}, stereo rate 30", if t { 4 } else { 3 }),
        move |c| {
            let mut l = Lock::rust(2, 30, ALL)?.windows(&[100, 400]);
            let mut from = 0;
            for _ in 0..if t { 4 } else { 3 } {
                let e = c.of(&ENTRIES);
                let n = c.of(&[12, 7, 1]);
                l.add(c, e, &grid(23, 2, from, n, 0.9))?;
                from += n;
            }
            Ok(())
        },
    ));

    v.push(space(
        "placement",
        "8 add and seed entry points x channel counts {1,2,3,4,5,6,8,9} x every offset 0..=15 of the samples in an allocation (planes each at another offset, or all channels the same plane, or planes overlapping) x lengths {3, 12, 29, 64}, surrounded by other audio: same results as elsewhere".to_string(),
        |c| {
            let chn = c.of(&[1usize, 2, 3, 4, 5, 6, 8, 9]);
            let e = c.of(&ENTRIES);
            let off = c.pick(16);
            let n = c.of(&[3usize, 12, 29, 64]);
            let kind = c.pick(3);
            let seed = c.flag();
            let planar_entry = matches!(e, Entry::PI16 | Entry::PI32 | Entry::PF32 | Entry::PF64);
            if kind > 0 && (!planar_entry || chn == 1) {
                return Ok(());
            }
            // interleaved: one run of samples; planar: a pool the planes are cut from
            let len = if planar_entry { chn * (n + 19) + 32 } else { chn * n + 32 };
            let pool: Vec<i16> = (0..len).map(|i| (noise(31, i % 7, i) * 32767.0) as i16).collect();
            let start = |k: usize| match kind {
                0 => off + k * (n + 1 + k % 3),
                1 => off,
                _ => off + k,
            };
            let grid: Vec<i16> = if planar_entry {
                (0..n * chn).map(|i| pool[start(i % chn) + i / chn]).collect()
            } else {
                pool[off..off + n * chn].to_vec()
            };
            let mut l = Lock::rust(chn as u32, 30, TP | I)?.windows(&[34, 100, 400]);
            if chn > 1 {
                l.sut.set_channel_map(&map_all(chn)).unwrap();
                l.m.set_channel_map(&map_all(chn)).unwrap();
            }
            l.add(c, Entry::I16, &Buf::Grid(chn, grid[..chn * 2].to_vec()))?;
            c.say(|| format!("{:?}, {} frames, offset {}, seed {}", e, n, off, seed));
            macro_rules! put {
                ($v:expr, $il:ident, $pl:ident, $sil:ident, $spl:ident) => {{
                    let v: Vec<_> = $v;
                    if planar_entry {
                        let p: Vec<_> = (0..chn).map(|k| &v[start(k)..start(k) + n]).collect();
                        if seed {
                            l.sut.$spl(&p)
                        } else {
                            l.sut.$pl(&p)
                        }
                    } else if seed {
                        l.sut.$sil(&v[off..off + n * chn])
                    } else {
                        l.sut.$il(&v[off..off + n * chn])
                    }
                }};
            }
            let p = pool.iter();
            let r = match e {
                Entry::I16 | Entry::PI16 => put!(pool.clone(), add_frames_i16, add_frames_planar_i16, seed_frames_i16, seed_frames_planar_i16),
                Entry::I32 | Entry::PI32 => put!(p.map(|&x| (x as i32) << 16).collect(), add_frames_i32, add_frames_planar_i32, seed_frames_i32, seed_frames_planar_i32),
                Entry::F32 | Entry::PF32 => put!(p.map(|&x| x as f32 / 32768.0).collect(), add_frames_f32, add_frames_planar_f32, seed_frames_f32, seed_frames_planar_f32),
                Entry::F64 | Entry::PF64 => put!(p.map(|&x| x as f64 / 32768.0).collect(), add_frames_f64, add_frames_planar_f64, seed_frames_f64, seed_frames_planar_f64),
            };
            let b = Buf::Grid(chn, grid);
            let w = if seed { l.m.seed(&b) } else { l.m.add(&b) };
            same("call", r.map_err(conv), w)?;
            l.after(c)?;
            l.add(c, Entry::I16, &Buf::Grid(chn, vec![500; chn * 9]))
        },
    ));

    // long single calls, so that every layout is split internally many times
    v.push(space(
        "split-inside-call",
        "one call of every length 1..=130 (rate 30, up to 3 s and over) x 8 entry points x channel counts {1,2,3,4,6,8}".to_string(),
        |c| {
            let n = c.range(1, 130);
            let e = c.of(&ENTRIES);
            let chn = c.of(&[1usize, 2, 3, 4, 6, 8]);
            let mut l = Lock::rust(chn as u32, 30, NOHIST)?.windows(&[34, 400, 3000]);
            l.add(c, e, &grid(25, chn, 0, n, 0.9))
        },
    ));

    // one channel carries a signal, all others are silent: nothing leaks
    v.push(space(
        "attribution",
        "channel counts 1..=64, each single channel active, every entry point (one per channel in quick)".to_string(),
        move |c| {
            let chn = c.range(1, 64);
            let k = c.pick(chn);
            let e = if t { c.of(&ENTRIES) } else { ENTRIES[(k + chn) % 8] };
            let n = 13;
            let mut d = vec![0i16; n * chn];
            for f in 0..n {
                d[f * chn + k] = (noise(27, k, f) * 30000.0) as i16;
            }
            let mut l = Lock::rust(chn as u32, 30, ALL)?.windows(&[400]);
            if chn > 1 {
                l.sut.set_channel_map(&map_all(chn)).unwrap();
                l.m.set_channel_map(&map_all(chn)).unwrap();
            }
            l.add(c, e, &Buf::Grid(chn, d))?;
            for o in 0..chn {
                let z = (l.sut.sample_peak(o as u32), l.sut.true_peak(o as u32));
                if o != k && z != (Ok(0.0), Ok(0.0)) {
                    return Err(format!("silent channel {} has peaks {:?}", o, z));
                }
            }
            Ok(())
        },
    ));

    // real rate, random-access style: every entry point over a second of audio
    v.push(space(
        "real-rates",
        "rates 44100/48000/96000/192000 x 8 entry points x channels {1,2,5,8}, 0.75 s".to_string(),
        |c| {
            let rate = c.of(&[44100u32, 48000, 96000, 192000]);
            let e = c.of(&ENTRIES);
            let chn = c.of(&[1usize, 2, 5, 8]);
            let n = rate as usize * 3 / 4;
            let mut l = Lock::rust(chn as u32, rate, if rate == 44100 { NOHIST } else { NOHIST & !32 })?.windows(&[1, 250]);
            l.add(c, e, &grid(29, chn, 0, n, 0.9))
        },
    ));
    v
}

/// All channels measured, with all weights in use.
pub fn map_all(chn: usize) -> Vec<ebur128::Channel> {
    (0..chn)
        .map(|i| {
            let k = 1 + (i * 7) % 31;
            TYPES[if k == 6 { 9 } else { k }]
        })
        .collect()
}

fn i32_values() -> Vec<i32> {
    let mut v = vec![0, i32::MAX, i32::MIN, i32::MIN + 1, 0x5555_5555, 0x2AAA_AAAA, -0x5555_5556];
    for k in 0..31 {
        for d in [-1i64, 0, 1] {
            let x = (1i64 << k) + d;
            v.push(x as i32);
            v.push(-x as i32);
        }
    }
    v.sort();
    v.dedup();
    v
}
