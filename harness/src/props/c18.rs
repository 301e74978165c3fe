//! C18: the C API.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::signal::*;
use crate::sut::*;
use ebur128::EbuR128;
use std::os::raw::c_ulong;

const WIN: [u32; 4] = [34, 100, 400, 3000];

fn fields(l: &Lock<CApi>, mode: i32) -> Res {
    let s = unsafe { (c_api::field_mode(l.sut.st), c_api::field_channels(l.sut.st), c_api::field_samplerate(l.sut.st)) };
    if (s.0, s.1 as usize, s.2) != (mode, l.m.channels, l.m.rate as c_ulong) {
        return Err(format!(
            "public fields are mode {:#x}, {} channels, {} Hz; expected {:#x}, {}, {}",
            s.0, s.1, s.2, mode, l.m.channels, l.m.rate
        ));
    }
    Ok(())
}

/// Expected status of a C setter that reports "no change".
fn changed(changed: bool, r: R) -> R {
    match r {
        Ok(()) if !changed => Result::Err(crate::sut::Err::NoChange),
        r => r,
    }
}

const SETS: usize = 27;
/// One C call with its expected effect on the model.
fn op(c: &mut Ch, l: &mut Lock<CApi>, k: usize, i: usize) -> Res {
    let chn = l.m.channels;
    let raw = l.sut.raw();
    let st = 501 + 2 * i as u64;
    let max = u32::MAX as c_ulong;
    c.say(|| format!("C operation {}", k));
    unsafe {
        match k {
            0 => l.add(c, Entry::I16, &grid(st, chn, 0, 14, 0.7))?,
            1 => l.add(c, Entry::I32, &grid(st, chn, 0, 1, 0.9))?,
            2 => l.add(c, Entry::F32, &grid(st, chn, 0, 97, 0.2))?,
            3 => l.add(c, Entry::F64, &wide(st, chn, 0, 13, 0.8))?,
            4 => l.add(c, Entry::F64, &Buf::Grid(chn, vec![]))?,
            // parameters
            5..=9 => {
                let (a, b) = [(chn as u32, l.m.rate), (chn as u32, 34), (3, 30), (65, 30), (2, 15)][k - 5];
                let same_p = a as usize == chn && b == l.m.rate;
                let want = changed(!same_p, l.m.change_parameters(a, b));
                same("ebur128_change_parameters", l.sut.change_parameters(a, b), want)?;
            }
            10 | 11 => {
                // beyond 32 bits; the low half would be acceptable
                let r = if k == 10 { (1u64 << 32) + 30 } else { (1 << 32) + 34 };
                same("ebur128_change_parameters", code(c_api::ebur128_change_parameters(raw, 2, r as c_ulong)), Result::Err(crate::sut::Err::NoMem))?;
            }
            12..=14 => {
                let w = [0u32, 3300, 400][k - 12];
                let before = l.m.window;
                let r = l.m.set_max_window(w);
                let want = changed(l.m.window != before, r);
                same("ebur128_set_max_window", l.sut.set_max_window(w), want)?;
            }
            15 => same("ebur128_set_max_window", code(c_api::ebur128_set_max_window(raw, max + 1 + 3300)), Result::Err(crate::sut::Err::NoMem))?,
            16..=18 => {
                let h = [0u32, 6000, 3000][k - 16];
                let before = l.m.history;
                let r = l.m.set_max_history(h);
                let want = changed(l.m.history != before, r);
                same("ebur128_set_max_history", l.sut.set_max_history(h), want)?;
            }
            19 => same("ebur128_set_max_history", code(c_api::ebur128_set_max_history(raw, max + 1 + 6000)), Result::Err(crate::sut::Err::NoMem))?,
            20 => l.set_channel(c, 0, ebur128::Channel::LeftSurround)?,
            21 => l.set_channel(c, chn as u32 - 1, ebur128::Channel::Right)?,
            22 => l.set_channel(c, 0, ebur128::Channel::DualMono)?,
            23 => l.set_channel(c, chn as u32, ebur128::Channel::Left)?,
            24 => {
                for v in [-1, 32, 33, 100, 255, 256, 0x101, i32::MIN, i32::MAX, i32::MIN + 1] {
                    same("ebur128_set_channel with an unknown type", code(c_api::ebur128_set_channel(raw, 0, v)), Result::Err(crate::sut::Err::InvalidChannel))?;
                }
            }
            25 => {
                for r in [
                    c_api::ebur128_add_frames_short(raw, std::ptr::null(), 0),
                    c_api::ebur128_add_frames_int(raw, std::ptr::null(), 0),
                    c_api::ebur128_add_frames_float(raw, std::ptr::null(), 0),
                    c_api::ebur128_add_frames_double(raw, std::ptr::null(), 0),
                ] {
                    same("adding no frames", code(r), Ok(()))?;
                }
            }
            _ => {
                for w in [max + 1, max + 1 + 400, max + 401, c_ulong::MAX] {
                    let mut v = POISON;
                    let r = code(c_api::ebur128_loudness_window(raw, w, &mut v));
                    same("ebur128_loudness_window beyond 32 bits", r, Result::Err(crate::sut::Err::InvalidMode))?;
                    if v != POISON {
                        return Err("output written although an error was returned".into());
                    }
                }
            }
        }
    }
    l.m.hash = mix(l.m.hash, k as u64 + 77);
    l.after(c)
}

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let depth = if t { 4 } else { 3 };
    v.push(space(
        "operation-sequences",
        format!("all sequences of {} C calls over {} (audio in 4 formats, parameters, window, history, channel types; valid, invalid, unchanged, beyond 32 bits, NULL), 4 modes x 1/2 channels, rate 30; status, outputs and public fields against the model after every call", depth, SETS),
        move |c| {
            let mode = c.of(&[NOHIST, ALL, I, SP | HIST]);
            let chn = c.of(&[2u32, 1]);
            let mut l = Lock::c(chn, 30, mode)?.windows(&WIN);
            fields(&l, mode as i32)?;
            for i in 0..depth {
                let k = c.pick(SETS);
                op(c, &mut l, k, i)?;
                fields(&l, mode as i32)?;
            }
            Ok(())
        },
    ));
    v.push(space(
        "against-rust",
        format!("all sequences of {} audio calls of 5 sizes in the 4 C formats, 1/2/5/6 channels, rates 30/8000/48000: every C result equals the Rust result bit for bit", if t { 3 } else { 2 }),
        move |c| {
            let rate = c.of(&[30u32, 8000, 48000]);
            let chn = c.of(&[1u32, 2, 5, 6]);
            let mode = c.of(&[NOHIST, ALL]);
            let cs = CApi::new(chn, rate as c_ulong, mode as i32).ok_or("ebur128_init failed")?;
            let mut cs = cs;
            let mut rs = EbuR128::new(chn, rate, mode_of(mode)).unwrap();
            let s = (rate as usize + 5) / 10;
            let mut h = mix(rate as u64, chn as u64 * 256 + mode as u64);
            for i in 0..if t { 3 } else { 2 } {
                let e = c.of(&[Entry::I16, Entry::I32, Entry::F32, Entry::F64]);
                let n = c.of(&[4 * s, 1, s - 1, 5 * s + 1, if rate < 10000 { 31 * s } else { 4 * s + 3 }]);
                let b = grid(531 + i as u64, chn as usize, 0, n, 0.6);
                same("add_frames", cs.add(e, &b), rs.add(e, &b))?;
                h = mix(h, mix(e as u64, n as u64));
                c.state(h);
                if !c.fresh() {
                    continue;
                }
                c.checked();
                let mut pairs = vec![
                    ("loudness_global", cs.global(), Sut::global(&rs)),
                    ("loudness_momentary", cs.momentary(), rs.momentary()),
                    ("loudness_shortterm", cs.shortterm(), rs.shortterm()),
                    ("loudness_range", cs.range(), rs.range()),
                    ("relative_threshold", cs.relative_threshold(), Sut::relative_threshold(&rs)),
                ];
                for w in [0, 1, 7, 100, 399, 400, 1000, 2999, 3000, 3100, 3300, 10000, u32::MAX - 1, u32::MAX] {
                    pairs.push(("loudness_window", cs.window(w), rs.window(w)));
                }
                for k in [0, 1, chn - 1, chn, chn + 1, 64, u32::MAX] {
                    pairs.push(("sample_peak", cs.sample_peak(k), Sut::sample_peak(&rs, k)));
                    pairs.push(("prev_sample_peak", cs.prev_sample_peak(k), Sut::prev_sample_peak(&rs, k)));
                    pairs.push(("true_peak", cs.true_peak(k), Sut::true_peak(&rs, k)));
                    pairs.push(("prev_true_peak", cs.prev_true_peak(k), Sut::prev_true_peak(&rs, k)));
                }
                for (n, a, b) in pairs {
                    let ok = match (a, b) {
                        (Ok(a), Ok(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
                        (a, b) => a == b,
                    };
                    if !ok {
                        return Err(format!("{} is {:?} in C but {:?} in Rust", n, a, b));
                    }
                }
            }
            Ok(())
        },
    ));
    v.push(space(
        "init",
        "ebur128_init for channel counts 0..=66 and extreme ones x 14 rates (also beyond 32 bits) x modes (with and without M, unknown bits, negative): NULL exactly if invalid, mode kept as passed".to_string(),
        |c| {
            let chn = match c.pick(71) {
                k if k <= 66 => k as u32,
                67 => 256,
                68 => 258,
                69 => 65538,
                _ => u32::MAX,
            };
            let rate: u64 = c.of(&[0, 15, 16, 30, 48000, 2_822_400, 2_822_401, u32::MAX as u64, (1 << 32) - 30, 1 << 32, (1 << 32) + 30, (1 << 32) + 48000, (3 << 40) + 44100, u64::MAX]);
            if rate == 2_822_400 && (9..=64).contains(&chn) {
                return Ok(());
            }
            let mode = c.of(&[1i32, 5, 127, 0, 4, 2, 0x101, 0x100, 127 | 1 << 20, -1, i32::MIN, 0xff]);
            let valid = (1..=64).contains(&chn) && (16..=2_822_400).contains(&rate) && mode & 1 == 1;
            c.state(mix(mix(chn as u64, rate), mode as u32 as u64));
            c.checked();
            match CApi::new(chn, rate as c_ulong, mode) {
                None if !valid => Ok(()),
                Some(mut s) if valid => {
                    let f = unsafe { (crate::sut::c_api::field_mode(s.st), crate::sut::c_api::field_channels(s.st), crate::sut::c_api::field_samplerate(s.st)) };
                    if f != (mode, chn, rate as c_ulong) {
                        return Err(format!("public fields {:?} after ebur128_init", f));
                    }
                    // modes decide as in Rust
                    let m = (mode & 127) as u8;
                    s.add(Entry::I16, &grid(541, chn as usize, 0, 14, 0.5)).map_err(|e| format!("add: {:?}", e))?;
                    for (n, ok, r) in [
                        ("loudness_global", m & I == I, s.global()),
                        ("loudness_range", m & LRA == LRA, s.range()),
                        ("loudness_momentary", true, s.momentary()),
                        ("loudness_shortterm", m & S == S, s.shortterm()),
                        ("relative_threshold", m & I == I, s.relative_threshold()),
                        ("sample_peak", m & SP == SP, s.sample_peak(0)),
                        ("prev_sample_peak", m & SP == SP, s.prev_sample_peak(chn - 1)),
                        ("true_peak", m & TP == TP, s.true_peak(0)),
                        ("prev_true_peak", m & TP == TP, s.prev_true_peak(chn - 1)),
                    ] {
                        let good = if ok { r.is_ok() } else { r == Result::Err(crate::sut::Err::InvalidMode) };
                        if !good {
                            return Err(format!("{} with mode {:#x} gave {:?}", n, mode, r));
                        }
                    }
                    Ok(())
                }
                x => Err(format!("ebur128_init({}, {}, {:#x}) returned an analyser: {}", chn, rate, mode, x.is_some())),
            }
        },
    ));
    v.push(space(
        "channel-types",
        "ebur128_set_channel: channel counts 1..=6 x every index 0..=7 x every value -300..=600 and the extremes: status, and (for accepted ones) the momentary loudness".to_string(),
        |c| {
            let chn = c.range(1, 6);
            let i = c.range(0, 7) as u32;
            let mut l = Lock::c(chn as u32, 30, M)?.what(W_MOM);
            let b = grid(543, chn, 0, 13, 0.8);
            same("add", l.sut.add(Entry::I16, &b), l.m.add(&b))?;
            let raw = l.sut.raw();
            c.state((chn * 16) as u64 + i as u64);
            for val in (-300..=600).chain([i32::MIN, i32::MIN + 5, i32::MAX, i32::MAX - 31, 1 << 16, (1 << 16) + 4]) {
                c.checked();
                let r = code(unsafe { c_api::ebur128_set_channel(raw, i, val) });
                let mut m = l.m.clone();
                let want = if (0..32).contains(&val) { m.set_channel(i, TYPES[val as usize]) } else { Result::Err(crate::sut::Err::InvalidChannel) };
                same(&format!("ebur128_set_channel({}, {}) of {} channels", i, val, chn), r, want)?;
                if r.is_ok() {
                    let e = m.momentary().unwrap();
                    let g = l.sut.momentary();
                    if !matches!(g, Ok(v) if e.admits(v)) && m.map[i as usize] != ebur128::Channel::Unused {
                        return Err(format!("momentary loudness {:?} after type {}, expected {:?}", g, val, e));
                    }
                    // back to the default
                    unsafe { c_api::ebur128_set_channel(raw, i, l.m.map[i as usize] as i32) };
                }
            }
            Ok(())
        },
    ));
    v.push(space(
        "multiple",
        "ebur128_loudness_global_multiple / _range_multiple over all selections (with repetition) of up to 4 of 5 states (histogram or not, with and without the modes), against the Rust functions; size 0 with NULL".to_string(),
        |c| {
            let n = c.range(0, 4);
            let modes = [I | LRA, I | LRA | HIST, M, I, ALL];
            let mk = |k: usize| {
                let mut s = CApi::new(1, 30, modes[k] as i32).unwrap();
                let mut r = EbuR128::new(1, 30, mode_of(modes[k])).unwrap();
                for j in 0..6 {
                    let b = wide(551 + k as u64, 1, j * 30, 30, db(-12.0 - 7.0 * ((j * (k + 1)) % 5) as f64));
                    s.add(Entry::F64, &b).unwrap();
                    r.add(Entry::F64, &b).unwrap();
                }
                (s, r)
            };
            let sel: Vec<usize> = (0..n).map(|_| c.pick(5)).collect();
            c.state(sel.iter().fold(n as u64, |h, k| mix(h, *k as u64)));
            let all: Vec<(CApi, EbuR128)> = sel.iter().map(|k| mk(*k)).collect();
            let mut ptrs: Vec<*mut c_api::State> = all.iter().map(|x| x.0.raw()).collect();
            let p = if n == 0 && c.flag() { std::ptr::null_mut() } else { ptrs.as_mut_ptr() };
            for k in 0..2 {
                c.checked();
                let mut out = POISON;
                let st = code(unsafe {
                    if k == 0 {
                        c_api::ebur128_loudness_global_multiple(p, n, &mut out)
                    } else {
                        c_api::ebur128_loudness_range_multiple(p, n, &mut out)
                    }
                });
                let rust = if k == 0 {
                    EbuR128::loudness_global_multiple(all.iter().map(|x| &x.1))
                } else {
                    EbuR128::loudness_range_multiple(all.iter().map(|x| &x.1))
                }
                .map_err(conv);
                let ok = match (st, rust) {
                    (Ok(()), Ok(v)) => out.to_bits() == v.to_bits(),
                    (Result::Err(a), Result::Err(b)) => a == b && out == POISON,
                    _ => false,
                };
                if !ok {
                    return Err(format!("{} of {:?}: status {:?} value {:?} in C, {:?} in Rust", ["global", "range"][k], sel, st, out, rust));
                }
            }
            Ok(())
        },
    ));
    v.push(space(
        "header",
        "ebur128.h compiles, declares every entry point (all C calls of this check are made from C through these declarations), and each of its channel types, modes and error codes means the same as in Rust".to_string(),
        |c| {
            match env!("VK_HEADER") {
                "library" => {}
                "moved" => return Ok(c.ambiguous()),
                x => return Err(format!("assets/ebur128.h does not compile or misses declarations ({})", x)),
            }
            let (types, alias, errors, modes) = unsafe { (c_api::CHANNELS, c_api::CHANNEL_ALIASES, c_api::ERRORS, c_api::MODES) };
            c.checked();
            let k = c.pick(types.len());
            c.state(k as u64);
            // the C name at position k stands for the Rust type at position k
            let want: Vec<i32> = TYPES.iter().map(|t| *t as i32).collect();
            if types[..] != want[..] {
                return Err(format!("channel types in the header: {:?}, in Rust: {:?}", types, want));
            }
            if alias != [1, 2, 3, 4, 5] {
                return Err(format!("channel type aliases in the header: {:?}", alias));
            }
            if errors != [0, 1, 2, 3, 4] {
                return Err(format!("error codes in the header: {:?}", errors));
            }
            let rm = [ebur128::Mode::M, ebur128::Mode::S, ebur128::Mode::I, ebur128::Mode::LRA, ebur128::Mode::SAMPLE_PEAK, ebur128::Mode::TRUE_PEAK, ebur128::Mode::HISTOGRAM].map(|m| m.bits() as i32);
            if modes != rm {
                return Err(format!("modes in the header: {:?}, in Rust: {:?}", modes, rm));
            }
            // and it counts as its weight says
            let mut s = CApi::new(2, 30, 1).ok_or("ebur128_init failed")?;
            same("ebur128_set_channel", code(unsafe { c_api::ebur128_set_channel(s.raw(), 0, types[k]) }), if k == 6 { Result::Err(crate::sut::Err::InvalidChannel) } else { Ok(()) })?;
            let mut m = Model::new(2, 30, 1).unwrap();
            let _ = m.set_channel(0, TYPES[k]);
            let b = grid(531, 2, 0, 14, 0.5);
            s.add(Entry::F32, &b).map_err(|e| format!("add_frames: {:?}", e))?;
            m.add(&b).unwrap();
            match (s.momentary(), m.momentary()) {
                (Ok(v), Ok(e)) if e.admits(v) => Ok(()),
                (a, b) => Err(format!("type {}: momentary loudness {:?}, expected {:?}", k, a, b)),
            }
        },
    ));
    v.push(space(
        "lifecycle",
        "init/destroy orders of 3 states (all 90 interleavings), destroy of NULL, of a NULL state and twice, overflowing frame counts, version".to_string(),
        |c| {
            let mut st: Vec<Option<*mut c_api::State>> = vec![None; 3];
            let mut done = [0usize; 3];
            let mut h = 0;
            for _ in 0..6 {
                let open: Vec<usize> = (0..3).filter(|i| done[*i] < 2).collect();
                let i = c.of(&open);
                h = mix(h, i as u64 + 1);
                c.state(h);
                c.checked();
                unsafe {
                    if done[i] == 0 {
                        let p = c_api::ebur128_init(1 + i as u32, 30, 127);
                        if p.is_null() {
                            return Err("ebur128_init failed".into());
                        }
                        // a frame count whose sample count overflows is an error, not a crash
                        if i > 0 {
                            let n = if i == 1 { usize::MAX / 2 + 3 } else { usize::MAX / 3 + 2 };
                            let r = [
                                c_api::ebur128_add_frames_short(p, [0i16; 8].as_ptr(), n),
                                c_api::ebur128_add_frames_int(p, [0i32; 8].as_ptr(), n),
                                c_api::ebur128_add_frames_float(p, [0f32; 8].as_ptr(), n),
                                c_api::ebur128_add_frames_double(p, [0f64; 8].as_ptr(), n),
                            ];
                            if r != [1; 4] {
                                return Err(format!("{} frames of {} channels: {:?}", n, i + 1, r));
                            }
                        }
                        let b = vec![1000i16 * (i as i16 + 1); 15 * (1 + i)];
                        if c_api::ebur128_add_frames_short(p, b.as_ptr(), 15) != 0 {
                            return Err("ebur128_add_frames_short failed".into());
                        }
                        st[i] = Some(p);
                    } else {
                        let mut p = st[i].take().unwrap();
                        let mut v = POISON;
                        if c_api::ebur128_sample_peak(p, i as u32, &mut v) != 0 || v != 1000.0 * (i as f64 + 1.0) / 32768.0 {
                            return Err(format!("sample peak {:?} of state {}", v, i));
                        }
                        c_api::ebur128_destroy(&mut p);
                        if !p.is_null() {
                            return Err("ebur128_destroy left the pointer".into());
                        }
                        c_api::ebur128_destroy(&mut p);
                        c_api::ebur128_destroy(std::ptr::null_mut());
                    }
                }
                done[i] += 1;
            }
            let (mut a, mut b, mut d) = (-1, -1, -1);
            unsafe { c_api::ebur128_get_version(&mut a, &mut b, &mut d) };
            if [a, b, d] != unsafe { c_api::VERSION } {
                return Err(format!("version {}.{}.{}, header says {:?}", a, b, d, unsafe { c_api::VERSION }));
            }
            Ok(())
        },
    ));
    v
}
