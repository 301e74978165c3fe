//! C15: invalid calls and failed allocations change nothing.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::signal::*;
use crate::sut::{self, conv, Buf, Entry, Sut, ENTRIES, R};
use crate::sys::alloc;
use ebur128::{Channel, EbuR128};

const WIN: [u32; 4] = [34, 100, 400, 3000];

/// Whether a bad call has to be rejected, or merely must do no harm.
#[derive(Clone, Copy, PartialEq)]
enum Must {
    Fail,
    NotCrash,
}

macro_rules! raw_feed {
    ($s:expr, $e:expr, $seed:expr, $n:expr) => {{
        let n: usize = $n;
        match ($e, $seed) {
            (0, false) => $s.add_frames_i16(&vec![1000i16; n]),
            (1, false) => $s.add_frames_i32(&vec![1000i32 << 16; n]),
            (2, false) => $s.add_frames_f32(&vec![0.7f32; n]),
            (3, false) => $s.add_frames_f64(&vec![0.7f64; n]),
            (0, true) => $s.seed_frames_i16(&vec![1000i16; n]),
            (1, true) => $s.seed_frames_i32(&vec![1000i32 << 16; n]),
            (2, true) => $s.seed_frames_f32(&vec![0.7f32; n]),
            _ => $s.seed_frames_f64(&vec![0.7f64; n]),
        }
        .map_err(conv)
    }};
}

fn planar_raw(s: &mut EbuR128, e: usize, seed: bool, lens: &[usize]) -> R {
    macro_rules! go {
        ($v:expr, $add:ident, $seed:ident) => {{
            let d: Vec<Vec<_>> = lens.iter().map(|n| vec![$v; *n]).collect();
            let r: Vec<&[_]> = d.iter().map(|x| &x[..]).collect();
            if seed {
                s.$seed(&r)
            } else {
                s.$add(&r)
            }
        }};
    }
    match e {
        0 => go!(1000i16, add_frames_planar_i16, seed_frames_planar_i16),
        1 => go!(1000i32 << 16, add_frames_planar_i32, seed_frames_planar_i32),
        2 => go!(0.7f32, add_frames_planar_f32, seed_frames_planar_f32),
        _ => go!(0.7f64, add_frames_planar_f64, seed_frames_planar_f64),
    }
    .map_err(conv)
}

type Bad = (String, Must, Box<dyn Fn(&mut EbuR128) -> R + Send + Sync>);

/// The menu of invalid calls for a stereo analyser at 30 Hz.
fn bad_calls() -> Vec<Bad> {
    use Channel::*;
    let mut v: Vec<Bad> = vec![];
    macro_rules! bad {
        ($n:expr, $m:expr, $f:expr) => {
            v.push(($n, $m, Box::new($f)))
        };
    }
    for i in [2u32, 3, 64, 255, 256, 65536, u32::MAX] {
        bad!(format!("set_channel({}, Left)", i), Must::Fail, move |s| Sut::set_channel(s, i, Left));
    }
    for i in [0u32, 1, 2] {
        bad!(format!("set_channel({}, DualMono)", i), Must::Fail, move |s| Sut::set_channel(s, i, DualMono));
    }
    for m in [
        vec![],
        vec![Right],
        vec![DualMono],
        vec![Right, Left, Center],
        vec![Right; 64],
        vec![Right; 65],
        vec![DualMono, Left],
        vec![Right, DualMono],
        vec![DualMono, DualMono],
        vec![Unused, DualMono],
        vec![Right, Left, DualMono],
    ] {
        bad!(format!("set_channel_map({:?})", &m[..m.len().min(4)]), Must::Fail, move |s| Sut::set_channel_map(s, &m));
    }
    for (ch, r) in [
        (0u32, 30u32),
        (65, 30),
        (256, 30),
        (u32::MAX, 30),
        (2, 0),
        (2, 1),
        (2, 15),
        (2, 2_822_401),
        (2, u32::MAX),
        (0, 0),
        (3, 15),
        (3, 2_822_401),
        (65, 48000),
        (0, 48000),
    ] {
        bad!(format!("change_parameters({}, {})", ch, r), Must::Fail, move |s| Sut::change_parameters(s, ch, r));
    }
    for seed in [false, true] {
        let n = if seed { "seed" } else { "add" };
        for e in 0..4 {
            for len in [1usize, 3, 25, 27, 2 * 40 + 1, 2 * 95 + 1] {
                bad!(format!("{} interleaved {} with {} samples", n, e, len), Must::Fail, move |s| raw_feed!(s, e, seed, len));
            }
            for lens in [
                vec![2usize, 3],
                vec![3, 2],
                vec![1, 0],
                vec![0, 1],
                vec![15, 14],
                vec![14, 100],
                vec![5],
                vec![5, 5, 5],
                vec![5, 5, 4],
                vec![100; 3],
                vec![13; 64],
            ] {
                bad!(format!("{} planar {} with lengths {:?}", n, e, &lens[..lens.len().min(4)]), Must::Fail, move |s| planar_raw(s, e, seed, &lens));
            }
            for lens in [vec![], vec![0usize], vec![0, 0], vec![0, 0, 0]] {
                bad!(format!("{} planar {} with lengths {:?}", n, e, lens), Must::NotCrash, move |s| planar_raw(s, e, seed, &lens));
            }
        }
    }
    for w in [u32::MAX, u32::MAX - 1, 3_000_000_000, 100_000_000] {
        bad!(format!("set_max_window({}) without memory", w), Must::Fail, move |s| {
            alloc::with_fault(1 << 19, 1, || Sut::set_max_window(s, w)).0
        });
        bad!(format!("loudness_window({})", w), Must::Fail, move |s| s.window(w).map(|_| ()));
    }
    for (ch, r) in [(64u32, 48000u32), (2, 2_822_400), (64, 2_822_400), (1, 192000), (2, 48000)] {
        bad!(format!("change_parameters({}, {}) without memory", ch, r), Must::Fail, move |s| {
            alloc::with_fault(1 << 17, 1, || Sut::change_parameters(s, ch, r)).0
        });
    }
    for i in [2u32, 63, 64, u32::MAX] {
        bad!(format!("peak queries of channel {}", i), Must::Fail, move |s| {
            let a = Sut::sample_peak(s, i);
            let b = Sut::prev_sample_peak(s, i);
            let c = Sut::true_peak(s, i);
            let d = Sut::prev_true_peak(s, i);
            match (a, b, c, d) {
                (Err(a), Err(_), Err(_), Err(_)) => Err(a),
                _ => Ok(()),
            }
        });
    }
    v
}

fn good(s: &mut EbuR128, k: usize, i: usize) -> R {
    let chn = s.channels() as usize;
    match k {
        0 => s.add(Entry::F64, &wide(361 + i as u64, chn, 0, 13, 0.6)),
        1 => s.add(Entry::PI16, &grid(363 + i as u64, chn, 0, 5, 0.9)),
        2 => s.add(Entry::F32, &grid(365 + i as u64, chn, 0, 100, 0.3)),
        3 => s.seed(Entry::F64, &wide(367 + i as u64, chn, 0, 7, 0.8)),
        4 => Sut::set_channel(s, 1, Channel::Mp060),
        _ => Sut::set_max_window(s, 3400 + i as u32 * 50),
    }
}
const GOOD: usize = 6;

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let bad = std::sync::Arc::new(bad_calls());
    let pre = if t { 3 } else { 2 };
    let b1 = bad.clone();
    v.push(space(
        "invalid-calls",
        format!("{} invalid calls after all histories of {} operations over {}, then {} continuations; compared with a twin without the call after every step", bad.len(), pre, GOOD, GOOD),
        move |c| {
            let mode = c.of(&[NOHIST, ALL]);
            let mut a = EbuR128::new(2, 30, mode_of(mode)).unwrap();
            let mut b = EbuR128::new(2, 30, mode_of(mode)).unwrap();
            let mut h = mode as u64;
            for i in 0..pre {
                let k = c.pick(GOOD);
                c.say(|| format!("operation {}", k));
                good(&mut a, k, i).map_err(|e| format!("operation {} failed: {:?}", k, e))?;
                good(&mut b, k, i).map_err(|e| format!("operation {} failed: {:?}", k, e))?;
                h = mix(h, k as u64);
            }
            let k = c.pick(b1.len());
            let (name, must, f) = &b1[k];
            c.say(|| name.clone());
            let r = f(&mut a);
            if *must == Must::Fail && r.is_ok() {
                return Err(format!("{} was accepted", name));
            }
            h = mix(h, k as u64 + 1000);
            c.state(h);
            c.checked();
            c.outcome(match r {
                Ok(()) => 0,
                Err(sut::Err::NoMem) => 1,
                Err(sut::Err::InvalidMode) => 2,
                Err(_) => 3,
            });
            twins(&a, &b, &WIN, &format!("after {}", name))?;
            let k = c.pick(GOOD);
            c.say(|| format!("operation {}", k));
            for x in [k, 2] {
                let (r1, r2) = (good(&mut a, x, 9), good(&mut b, x, 9));
                same("operation after an invalid call", r1, r2)?;
            }
            c.checked();
            twins(&a, &b, &WIN, &format!("continuing after {}", name))
        },
    ));
    let b2 = bad.clone();
    v.push(space(
        "two-invalid-calls",
        "all ordered pairs of the invalid calls with audio before, between and after; twin comparison".to_string(),
        move |c| {
            let i = c.pick(b2.len());
            let j = c.pick(b2.len());
            let mut a = EbuR128::new(2, 30, mode_of(NOHIST)).unwrap();
            let mut b = EbuR128::new(2, 30, mode_of(NOHIST)).unwrap();
            for s in [&mut a, &mut b] {
                good(s, 2, 0).unwrap();
            }
            let _ = (b2[i].2)(&mut a);
            for s in [&mut a, &mut b] {
                good(s, 0, 1).unwrap();
            }
            let _ = (b2[j].2)(&mut a);
            for s in [&mut a, &mut b] {
                good(s, 2, 2).unwrap();
            }
            c.say(|| format!("{} / {}", b2[i].0, b2[j].0));
            c.state((i * 1000 + j) as u64);
            c.checked();
            twins(&a, &b, &WIN, &format!("after {} and {}", b2[i].0, b2[j].0))
        },
    ));
    v.push(space(
        "parameter-grid",
        "new and change_parameters (from 2 ch/30 Hz) with all channel counts 0..=70 and extreme ones x rates around both limits: accepted exactly within 1..=64 and 16..=2822400".to_string(),
        |c| {
            let ch = match c.pick(76) {
                k if k <= 70 => k as u32,
                71 => 128,
                72 => 256,
                73 => 257,
                74 => 65537,
                _ => u32::MAX,
            };
            let rate = c.of(&[0u32, 1, 14, 15, 16, 17, 18, 30, 1000, 2_822_399, 2_822_400, 2_822_401, 3_000_000, u32::MAX - 4, u32::MAX]);
            if rate > 1_000_000 && (3..=62).contains(&ch) && ch % 16 != 0 {
                return Ok(());
            }
            let valid = (1..=64).contains(&ch) && (16..=2_822_400).contains(&rate);
            c.state(mix(ch as u64, rate as u64));
            let mode = c.of(&[M, TP]);
            c.checked();
            match EbuR128::new(ch, rate, mode_of(mode)) {
                Ok(mut s) if valid => {
                    if (s.channels(), s.rate()) != (ch, rate) {
                        return Err("new() lost its parameters".into());
                    }
                    s.add(Entry::I16, &grid(371, ch as usize, 0, 50, 0.5)).map_err(|e| format!("add_frames after new({}, {}): {:?}", ch, rate, e))?;
                    s.momentary().map_err(|e| format!("momentary after new({}, {}): {:?}", ch, rate, e))?;
                }
                Err(ebur128::Error::NoMem) if !valid => {}
                r => return Err(format!("new({}, {}) gave {:?}", ch, rate, r.map(|_| ()))),
            }
            if rate > 1_000_000 && valid && ch > 8 {
                return Ok(());
            }
            let mut s = EbuR128::new(2, 30, mode_of(mode)).unwrap();
            s.add(Entry::I16, &grid(371, 2, 0, 14, 0.5)).unwrap();
            let before = hash_results(&s);
            match s.change_parameters(ch, rate) {
                Ok(()) if valid => {
                    if (s.channels(), s.rate()) != (ch, rate) {
                        return Err("change_parameters() lost its parameters".into());
                    }
                }
                Err(ebur128::Error::NoMem) if !valid => {
                    if before != hash_results(&s) || (s.channels(), s.rate()) != (2, 30) {
                        return Err(format!("rejected change_parameters({}, {}) changed the analyser", ch, rate));
                    }
                }
                r => return Err(format!("change_parameters({}, {}) gave {:?}", ch, rate, r)),
            }
            s.add(Entry::I16, &grid(371, s.channels() as usize, 0, 50, 0.5)).map_err(|e| format!("add_frames after change: {:?}", e))?;
            s.momentary().map(|_| ()).map_err(|e| format!("momentary after change: {:?}", e))
        },
    ));
    v.push(space(
        "allocation-faults",
        "48 kHz, every allocation of at least 64 KiB of new, change_parameters, set_max_window (and of every other call) made to fail in turn, after audio; result is NoMem and the analyser continues as its twin".to_string(),
        |c| {
            let ch = c.of(&[1u32, 2, 6, 64]);
            let mode = c.of(&[NOHIST, M, ALL]);
            let op = c.pick(9);
            let pos = c.of(&[0usize, 100, 19200, 30000]);
            let mk = || EbuR128::new(ch, 48000, mode_of(mode)).unwrap();
            let (mut a, mut b) = (mk(), mk());
            let x = grid(373, ch as usize, 0, pos, 0.3);
            a.add(Entry::I16, &x).unwrap();
            b.add(Entry::I16, &x).unwrap();
            let y = grid(375, ch as usize, 0, 30000, 0.3);
            let yf = sut::planar(&(0..y.len()).map(|i| y.at(i) as f32).collect::<Vec<_>>(), ch as usize);
            let mut nth = 1;
            let mut refused_any = false;
            loop {
                c.checked();
                c.state(mix(mix(ch as u64, mode as u64), (op * 1000 + nth as usize) as u64 + pos as u64 * 10_000));
                // only allocations made by the call itself, not by the harness
                let (r, _, failed) = match op {
                    0 => alloc::with_fault(65536, nth, || EbuR128::new(ch, 48000, mode_of(mode)).map(|_| ()).map_err(conv)),
                    1 => alloc::with_fault(65536, nth, || Sut::change_parameters(&mut a, ch, 96000)),
                    2 => alloc::with_fault(65536, nth, || Sut::change_parameters(&mut a, if ch == 64 { 63 } else { ch + 1 }, 48000)),
                    3 => alloc::with_fault(65536, nth, || Sut::set_max_window(&mut a, 5000)),
                    4 => alloc::with_fault(65536, nth, || Sut::set_max_window(&mut a, u32::MAX)),
                    5 => {
                        let r: Vec<&[f32]> = yf.iter().map(|v| &v[..]).collect();
                        let z = alloc::with_fault(65536, nth, || a.add_frames_planar_f32(&r).map_err(conv));
                        if z.0 == Ok(()) {
                            b.add_frames_planar_f32(&r).unwrap();
                        }
                        z
                    }
                    6 => alloc::with_fault(65536, nth, || Sut::set_max_history(&mut a, 3000)),
                    7 => alloc::with_fault(65536, nth, || {
                        a.reset();
                        Ok(())
                    }),
                    _ => alloc::with_fault(65536, nth, || {
                        let _ = a.global();
                        let _ = a.range();
                        let _ = a.momentary();
                        let _ = a.shortterm();
                        Ok(())
                    }),
                };
                if failed == 0 {
                    // everything was available: the call succeeds (or has nothing to allocate)
                    if op <= 3 && r != Ok(()) {
                        return Err(format!("operation {} failed with {:?} although all memory was available", op, r));
                    }
                    break;
                }
                refused_any = true;
                if op <= 4 && r != Err(sut::Err::NoMem) {
                    return Err(format!("operation {} with refused allocation {} returned {:?}", op, nth, r));
                }
                if r.is_err() {
                    twins(&a, &b, &[1, 100, 400, 3000], "after a failed allocation")?;
                }
                nth += 1;
                if nth > 64 {
                    return Err("more than 64 large allocations in one call".into());
                }
                if op == 4 && nth > 2 {
                    break;
                }
            }
            if op <= 4 && !refused_any {
                // harmless: the call did not need a large buffer in this configuration
                c.ambiguous();
            }
            // bring the twin to the same configuration and continue
            match op {
                1 => Sut::change_parameters(&mut b, ch, 96000),
                2 => Sut::change_parameters(&mut b, if ch == 64 { 63 } else { ch + 1 }, 48000),
                3 => Sut::set_max_window(&mut b, 5000),
                6 => Sut::set_max_history(&mut b, 3000),
                7 => {
                    b.reset();
                    Ok(())
                }
                _ => Ok(()),
            }
            .map_err(|e| format!("twin: {:?}", e))?;
            let z = grid(377, a.channels() as usize, 0, 40000, 0.3);
            a.add(Entry::I16, &z).map_err(|e| format!("add_frames after a failed allocation: {:?}", e))?;
            b.add(Entry::I16, &z).unwrap();
            twins(&a, &b, &[1, 100, 400, 3000], "continuing after a failed allocation")
        },
    ));
    v.push(space(
        "giant-windows",
        "windows from 2^20 to 2^32-1 ms at 6 rates x 1/2/64 channels: refused by a memory limit of 3 GiB without effect, or accepted; nothing panics or aborts".to_string(),
        move |c| {
            let e = c.range(20, 32);
            let w = match c.pick(3) {
                0 => (1u64 << e) - 1,
                1 => (1u64 << e).min(u32::MAX as u64),
                _ => ((1u64 << e) + (1u64 << (e - 1))).min(u32::MAX as u64),
            } as u32;
            let rate = c.of(&[16u32, 30, 4000, 48000, 192000, 2_822_400]);
            let ch = c.of(&[1u32, 2, 64]);
            let bytes = w as u64 * rate as u64 / 1000 * ch as u64 * 8;
            let slack = rate as u64 * ch as u64 * 2;
            if bytes < (3 << 30) + slack && bytes > 60_000_000 {
                // would really be allocated: make it fail instead
                let mut s = EbuR128::new(ch, rate, mode_of(M)).unwrap();
                let r = alloc::with_fault(10_000_000, 1, || Sut::set_max_window(&mut s, w)).0;
                c.checked();
                return same("set_max_window with refused memory", r, Err(sut::Err::NoMem));
            }
            let mode = c.of(&[M, NOHIST]);
            if rate as u64 * ch as u64 > 10_000_000 {
                return Ok(());
            }
            let mk = || EbuR128::new(ch, rate, mode_of(mode)).unwrap();
            let (mut a, mut b) = (mk(), mk());
            let x = grid(379, ch as usize, 0, 300, 0.3);
            a.add(Entry::I16, &x).unwrap();
            b.add(Entry::I16, &x).unwrap();
            let r = Sut::set_max_window(&mut a, w);
            c.checked();
            c.state(mix(mix(w as u64, rate as u64), ch as u64));
            if bytes >= 60_000_000 {
                same("set_max_window beyond the memory limit", r, Err(sut::Err::NoMem))?;
                twins(&a, &b, &[400], "after a refused window")?;
            } else {
                same("set_max_window", r, Ok(()))?;
            }
            let r = a.window(w).is_ok();
            let fits = bytes < 60_000_000;
            if r != fits {
                return Err(format!("loudness_window({}) accepted: {}", w, r));
            }
            Ok(())
        },
    ));
    v.push(space(
        "every-length",
        "every channel count 1..=64 x interleaved lengths 0..=200 x 4 formats x add/seed: accepted exactly if the length is a multiple of the channel count".to_string(),
        |c| {
            let ch = c.range(1, 64);
            let e = c.pick(4);
            let seed = c.flag();
            let mut s = EbuR128::new(ch as u32, 30, mode_of(TP)).unwrap();
            c.state((ch * 8 + e * 2 + seed as usize) as u64);
            for n in 0..=200usize {
                c.checked();
                let r = raw_feed!(s, e, seed, n);
                let want = if n % ch == 0 { Ok(()) } else { Err(sut::Err::NoMem) };
                same(&format!("{} samples for {} channels", n, ch), r, want)?;
            }
            Ok(())
        },
    ));
    v.push(space(
        "planar-shapes",
        format!("all planar shapes with 1..=4 rows of 0..={} samples for 1..=3 channels, 8 entry points: accepted exactly if rectangular with the right number of rows (empty shapes: anything but a panic)", if t { 4 } else { 3 }),
        move |c| {
            let ch = c.range(1, 3);
            let rows = c.range(0, 4);
            let lens: Vec<usize> = (0..rows).map(|_| c.pick(if t { 5 } else { 4 })).collect();
            let mut h = ch as u64;
            for l in &lens {
                h = mix(h, *l as u64);
            }
            c.state(h);
            for e in 0..4 {
                for seed in [false, true] {
                    let mut s = EbuR128::new(ch as u32, 30, mode_of(TP)).unwrap();
                    c.checked();
                    let r = planar_raw(&mut s, e, seed, &lens);
                    let rect = lens.iter().all(|l| *l == lens[0]);
                    let empty = lens.iter().all(|l| *l == 0);
                    if empty {
                        continue;
                    }
                    let want = if rect && rows == ch { Ok(()) } else { Err(sut::Err::NoMem) };
                    same(&format!("planar {:?} for {} channels (seed: {})", lens, ch, seed), r, want)?;
                    if r.is_err() && (0..ch as u32).any(|i| Sut::sample_peak(&s, i) != Ok(0.0)) {
                        return Err("a rejected buffer left a peak behind".into());
                    }
                }
            }
            Ok(())
        },
    ));
    let _ = (ENTRIES, Buf::Grid(0, vec![]));
    v
}
