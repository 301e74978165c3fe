//! C25: memory and work are bounded by the configuration.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::signal::*;
use crate::step;
use crate::sut::*;
use crate::sys::alloc::growth;
use ebur128::EbuR128;
use std::collections::HashMap;

/// (channels, rate, window, history, mode)
type Cfg = (u32, u32, u32, u32, u8);

thread_local! {
    static BUFFERS: std::cell::RefCell<HashMap<(usize, usize), Buf>> = Default::default();
    static FRESH: std::cell::RefCell<HashMap<Cfg, isize>> = Default::default();
}
/// Memory of a new analyser of that configuration.
fn fresh(k: Cfg) -> R<isize> {
    if let Some(v) = FRESH.with(|f| f.borrow().get(&k).copied()) {
        return Ok(v);
    }
    let (e, v) = growth(|| -> R<EbuR128> {
        let mut e = EbuR128::new(k.0, k.1, mode_of(k.4)).map_err(conv)?;
        let _ = e.set_max_window(k.2);
        let _ = e.set_max_history(k.3);
        Ok(e)
    });
    e?;
    FRESH.with(|f| f.borrow_mut().insert(k, v));
    Ok(v)
}
/// What a stored block may take: 8 bytes, twice that after growing, and some.
const PER_BLOCK: isize = 32;
const SLACK: isize = 8 << 10;

fn queries(e: &EbuR128) {
    let _ = results(e, &[34, 100, 400, 3000]);
    let _ = format!("{:?}", e);
    let _ = EbuR128::loudness_global_multiple([e, e].into_iter());
    let _ = EbuR128::loudness_range_multiple([e, e]);
}

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let depth = if t { 6 } else { 5 };
    v.push(space(
        "memory-sequences",
        format!("all sequences of {} over 12 operations (audio of 0.1, 4 and 60 s, seeding, reset, change of rate, channels, window, history, all queries, calls that are refused) x 4 modes: after every operation the analyser's memory is at most that of a new one of the largest configuration so far plus 32 bytes per block that may be kept plus 8 KiB; dropped, it leaves nothing", depth),
        move |c| {
            let bits = c.of(&[I | LRA | SP, I | LRA | HIST, I | LRA | TP, M]);
            let mut k: Cfg = (1, 30, if bits & LRA != 0 { 3000 } else { 400 }, u32::MAX, bits);
            let (e, mut live) = growth(|| EbuR128::new(k.0, k.1, mode_of(bits)));
            let mut e = e.map_err(|e| format!("{:?}", e))?;
            let err = |e: Err| format!("{:?}", e);
            let mut high = fresh(k).map_err(err)?;
            let (mut frames, mut kept) = (0usize, 0isize);
            let mut h = bits as u64;
            for _ in 0..depth {
                let op = c.pick(12);
                h = mix(h, op as u64);
                let n = [3usize, 120, 1800][op.min(2)];
                // (the buffers are built outside, and kept, so that only the library's memory counts)
                let b = BUFFERS.with(|f| f.borrow_mut().entry((k.0 as usize, n)).or_insert_with(|| wide(701, k.0 as usize, 0, n, 0.5)).clone());
                let (r, g) = growth(|| -> R<()> {
                    match op {
                        0..=2 => e.add(Entry::F64, &b),
                        3 => e.seed(Entry::F64, &b),
                        4 => {
                            e.reset();
                            Ok(())
                        }
                        5 => e.change_parameters(k.0, if k.1 == 30 { 34 } else { 30 }).map_err(conv),
                        6 => e.change_parameters(if k.0 == 1 { 5 } else { 1 }, k.1).map_err(conv),
                        7 => e.set_max_window(if k.2 == 7000 { 3000 } else { 7000 }).map_err(conv),
                        8 => e.set_max_history(3000).map_err(conv),
                        11 => {
                            // (all of these are refused)
                            let _ = EbuR128::new(0, 48000, mode_of(bits));
                            let _ = EbuR128::new(1, 15, mode_of(bits));
                            let _ = e.change_parameters(65, 3_000_000);
                            let _ = e.loudness_window(u32::MAX);
                            let _ = e.set_channel(64, TYPES[0]);
                            Ok(())
                        }
                        9 => e.set_max_history(if k.3 == 20_000 { u32::MAX } else { 20_000 }).map_err(conv),
                        _ => {
                            queries(&e);
                            Ok(())
                        }
                    }
                });
                r.map_err(err)?;
                live += g;
                match op {
                    0..=2 => frames += n,
                    5 => k.1 = e.rate(),
                    6 => k.0 = e.channels(),
                    7 => k.2 = e.max_window() as u32,
                    8 | 9 => k.3 = e.max_history().min(u32::MAX as usize) as u32,
                    _ => (),
                }
                high = high.max(fresh(k).map_err(err)?);
                if bits & HIST == 0 && bits & (I | LRA) & !M != 0 {
                    kept = kept.max((frames as isize / 3).min(k.3 as isize / 100));
                }
                h = mix(h, live as u64);
                c.state(h);
                c.checked();
                let allowed = high + kept * PER_BLOCK + SLACK;
                if live > allowed {
                    return Err(format!("the analyser takes {} bytes, {} are allowed ({} for the configuration {:?}, {} blocks)", live, allowed, high, k, kept));
                }
            }
            let ((), g) = growth(|| drop(e));
            c.checked();
            if live + g != 0 {
                return Err(format!("{} bytes remain after dropping the analyser", live + g));
            }
            Ok(())
        },
    ));
    v.push(space(
        "many-changes",
        "400 changes of the rate, the channel count, both, the window, the history limit or the channel types, resets, seeds or queries, each to another value, with or without 0.5 s of audio after each, x 4 modes: memory as above (history limit 3 s)".to_string(),
        move |c| {
            let bits = c.of(&[I | LRA | SP, I | LRA | HIST, I | LRA | TP, M]);
            let kind = c.pick(9);
            let audio = c.flag();
            let (e, mut live) = growth(|| EbuR128::new(2, 30, mode_of(bits)));
            let mut e = e.map_err(|e| format!("{:?}", e))?;
            let mut high = 0;
            for i in 0..400u32 {
                let n = e.rate() as usize / 2;
                let b = wide(709, e.channels() as usize, 0, n, 0.5);
                let s = wide(711, e.channels() as usize, 0, i as usize, 0.5);
                let (r, g) = growth(|| -> R<()> {
                    match kind {
                        0 => e.change_parameters(2, 30 + i).map_err(conv)?,
                        1 => e.change_parameters(1 + i % 64, 30).map_err(conv)?,
                        2 => e.change_parameters(1 + i % 63, 30 + i).map_err(conv)?,
                        3 => e.set_max_window(3000 + 17 * i).map_err(conv)?,
                        4 => e.set_max_history(3000 + 100 * i).map_err(conv)?,
                        5 => {
                            // (dual mono is refused with two channels)
                            let _ = e.set_channel(i % 2, TYPES[i as usize % TYPES.len()]);
                        }
                        6 => e.reset(),
                        7 => e.seed(Entry::F64, &s)?,
                        _ => queries(&e),
                    }
                    if audio {
                        // (the channel count may have changed)
                        let _ = e.add(Entry::F64, &b);
                    }
                    Ok(())
                });
                r.map_err(|e| format!("{:?}", e))?;
                live += g;
                let h = if kind == 4 { 3000 + 100 * i } else { u32::MAX };
                high = high.max(fresh((e.channels(), e.rate(), e.max_window() as u32, h, bits)).map_err(|e| format!("{:?}", e))?);
                let kept = if bits & HIST != 0 || !audio { 0 } else { (i as isize + 1) * 5 };
                c.state(mix(mix(bits as u64, kind as u64 * 2 + audio as u64), mix(i as u64, live as u64)));
                c.checked();
                let allowed = high + kept * PER_BLOCK + SLACK;
                if live > allowed {
                    return Err(format!("after {} changes the analyser takes {} bytes, {} are allowed ({} for its configurations, {} blocks)", i + 1, live, allowed, high, kept));
                }
            }
            Ok(())
        },
    ));
    let hours = if t { 200 } else { 30 };
    v.push(space(
        "long-streams",
        format!("{} hours of audio (30 Hz; all blocks above the gates, or in part) with 4 modes x histogram or a limit of 3 s, 1 min, 1 h or none x calls of 1 s or 7 min: memory after every simulated hour as above", hours),
        move |c| {
            let bits = c.of(&[I, LRA, I | LRA, I | LRA | TP]);
            let lim = c.pick(5);
            let call = c.of(&[30usize, 12600]);
            let bits = if lim == 0 { bits | HIST } else { bits };
            let limit = [u32::MAX, 3000, 60_000, 3_600_000, u32::MAX][lim];
            let gaps = c.flag();
            let mut b = wide(703, 1, 0, call, 0.5);
            if gaps {
                if let Buf::F64(_, v) = &mut b {
                    let n = v.len();
                    v[n / 2..].fill(0.0);
                }
            }
            let (e, mut live) = growth(|| -> R<EbuR128> {
                let mut e = EbuR128::new(1, 30, mode_of(bits)).map_err(conv)?;
                e.set_max_history(limit).map_err(conv)?;
                Ok(e)
            });
            let mut e = e.map_err(|e| format!("{:?}", e))?;
            let base = live;
            let mut done = 0usize;
            for hour in 1..=hours {
                while done < hour * 108_000 {
                    let (r, g) = growth(|| e.add(Entry::F64, &b));
                    r.map_err(|e| format!("{:?}", e))?;
                    live += g;
                    done += call;
                }
                let kept = if lim == 0 { 0 } else { (done as isize / 3).min(limit as isize / 100) };
                c.state(mix(mix(bits as u64, limit as u64), live as u64));
                c.checked();
                let allowed = base + kept * PER_BLOCK + SLACK;
                if live > allowed {
                    return Err(format!("after {} hours the analyser takes {} bytes, {} are allowed", hour, live, allowed));
                }
            }
            Ok(())
        },
    ));
    v.push(space(
        "work",
        format!("processor instructions (single-stepped, C library included) for 1 s of audio in calls of 1, 3, 7 or 30 frames after 10 s and after {} h of audio with 3 modes x histogram or a limit of 3 s, 1 min, 1 h or none x level inside or below the gates: the work per frame does not grow with the history (factor 2; the least of 3 tries, so that growing an array in between does not count)", if t { 10 } else { 2 }),
        move |c| {
            let bits = c.of(&[I, LRA, I | LRA]);
            let lim = c.pick(5);
            let bits = if lim == 0 { bits | HIST } else { bits };
            let limit = [u32::MAX, 3000, 60_000, 3_600_000, u32::MAX][lim];
            let call = c.of(&[3usize, 1, 7, 30]);
            let level = c.of(&[0.5, 1e-5]);
            let err = |e: Err| format!("{:?}", e);
            let mut e = EbuR128::new(1, 30, mode_of(bits)).map_err(|e| format!("{:?}", e))?;
            e.set_max_history(limit).map_err(|e| format!("{:?}", e))?;
            let long = wide(705, 1, 0, 3000, level);
            let parts: Vec<Buf> = (0..30).step_by(call).map(|i| wide(707, 1, i, call.min(30 - i), level)).collect();
            // (a multiple of 3 s, so that both measurements are at the same place of blocks and buffer)
            let work = |e: &mut EbuR128| -> Result<u64, String> {
                let mut least = u64::MAX;
                for _ in 0..3 {
                    let (r, n) = step::count_all(|| -> R<()> {
                        for p in &parts {
                            e.add(Entry::F64, p)?;
                        }
                        Ok(())
                    });
                    r.map_err(err)?;
                    least = least.min(n);
                }
                Ok(least)
            };
            for _ in 0..3 {
                e.add(Entry::F64, &slice(&long, 90)).map_err(err)?;
            }
            let a = work(&mut e)?;
            for _ in 0..if t { 360 } else { 72 } {
                e.add(Entry::F64, &long).map_err(err)?;
            }
            let b = work(&mut e)?;
            c.state(mix(mix(bits as u64, limit as u64), mix(call as u64, a)));
            c.checked();
            c.say(|| format!("1 s takes {} instructions after 10 s, {} after hours", a, b));
            if b > 2 * a + 5000 {
                return Err(format!("1 s of audio takes {} instructions after 10 s and {} after hours", a, b));
            }
            Ok(())
        },
    ));
    v
}

fn slice(b: &Buf, n: usize) -> Buf {
    match b {
        Buf::F64(c, v) => Buf::F64(*c, v[..n * c].to_vec()),
        _ => unreachable!(),
    }
}
