//! C16: channel types.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::signal::*;
use crate::sut::*;
use ebur128::Channel;

const FOCUS: u32 = W_CONF | W_MOM | W_ST | W_WIN | W_GLOB | W_LRA;

/// Equal, strong level in every channel, different content.
fn even(stream: u64, ch: usize, from: usize, n: usize) -> Buf {
    let mut v = vec![];
    for f in from..from + n {
        for c in 0..ch {
            v.push((noise(stream, c, f) * 20000.0) as i16);
        }
    }
    Buf::Grid(ch, v)
}

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    v.push(space(
        "single-types",
        "channel counts 1..=8 x every channel x all 32 types, by set_channel and by set_channel_map, before the audio; 3.4 s".to_string(),
        |c| {
            let chn = c.range(1, 8);
            let i = c.pick(chn);
            let ty = c.of(&TYPES);
            let by_map = c.flag();
            let mode = c.of(&[NOHIST, ALL]);
            let mut l = Lock::rust(chn as u32, 30, mode)?.what(FOCUS).windows(&[34, 400, 3000]);
            if by_map {
                let mut m = default_map(chn);
                m[i] = ty;
                l.set_channel_map(c, &m)?;
            } else {
                l.set_channel(c, i as u32, ty)?;
            }
            l.add(c, Entry::I16, &even(401, chn, 0, 13))?;
            l.add(c, Entry::PF32, &even(401, chn, 13, 90))
        },
    ));
    v.push(space(
        "alone-in-position",
        "channel counts 1..=64 x every position x weights {Left, LeftSurround, RightSurround, +-60, +-90, +-110, +-135 upper, LFE-like Unused, ...} with all other channels Unused or silent".to_string(),
        move |c| {
            let chn = c.range(1, 64);
            let i = if t || chn <= 16 { c.pick(chn) } else { c.of(&[0, 1, 3, 5, 15, chn / 2, chn - 2, chn - 1]) };
            let ty = if t {
                c.of(&TYPES)
            } else {
                use Channel::*;
                c.of(&[Left, LeftSurround, RightSurround, Mp060, Mm060, Mp090, Mm090, Up110, Unused])
            };
            if ty == Channel::DualMono {
                return Ok(());
            }
            let mut l = Lock::rust(chn as u32, 30, I)?.what(FOCUS).windows(&[100]);
            let mut m = vec![Channel::Unused; chn];
            m[i] = ty;
            l.set_channel_map(c, &m)?;
            l.add(c, Entry::I16, &even(403, chn, 0, 15))
        },
    ));
    v.push(space(
        "pairs",
        "stereo: all pairs of the 32 types (also through one map), 3.4 s, both orders of setting".to_string(),
        |c| {
            let a = c.of(&TYPES);
            let b = c.of(&TYPES);
            let how = c.pick(3);
            let mut l = Lock::rust(2, 30, NOHIST)?.what(FOCUS).windows(&[34, 400]);
            match how {
                0 => l.set_channel_map(c, &[a, b])?,
                1 => {
                    l.set_channel(c, 0, a)?;
                    l.set_channel(c, 1, b)?;
                }
                _ => {
                    l.set_channel(c, 1, b)?;
                    l.set_channel(c, 0, a)?;
                }
            }
            l.add(c, Entry::I16, &even(405, 2, 0, 102))
        },
    ));
    v.push(space(
        "maps",
        format!("all maps of {} channels over 5 classes of types (Unused, Left, 1.41, upper, center)", if t { 6 } else { 5 }),
        move |c| {
            let n = if t { 6 } else { 5 };
            use Channel::*;
            let m: Vec<Channel> = (0..n).map(|_| c.of(&[Left, Unused, Mm060, Up110, RightSurround])).collect();
            let mut l = Lock::rust(n as u32, 30, I)?.what(FOCUS).windows(&[34]);
            l.set_channel_map(c, &m)?;
            l.add(c, Entry::PI32, &even(407, n, 0, 16))
        },
    ));
    v.push(space(
        "default-maps",
        "every channel count 1..=64 as created and as changed to (from 1, 2, 6 and 64 channels)".to_string(),
        |c| {
            let n = c.range(1, 64) as u32;
            let from = c.of(&[0u32, 1, 2, 6, 64]);
            let mut l;
            if from == 0 || from == n {
                l = Lock::rust(n, 30, NOHIST)?;
            } else {
                l = Lock::rust(from, 30, NOHIST)?;
                if from == 1 {
                    l.set_channel(c, 0, Channel::DualMono)?;
                } else {
                    l.set_channel(c, 1, Channel::Mp090)?;
                }
                l.change_parameters(c, n, 30)?;
            }
            l = l.what(FOCUS);
            l.add(c, Entry::F64, &even(409, n as usize, 0, 14))?;
            l.add(c, Entry::F64, &even(409, n as usize, 14, 90))
        },
    ));
    v.push(space(
        "dual-mono",
        "mono as DualMono set at every frame 0..=60 of a 90-frame stream and set back later; compared with the model and with Left (+3.01 LU)".to_string(),
        |c| {
            let at = c.range(0, 60);
            let back = c.range(0, 30);
            let mut l = Lock::rust(1, 30, NOHIST)?.what(FOCUS).windows(&[34, 400, 3000]);
            l.add(c, Entry::I16, &even(411, 1, 0, at))?;
            l.set_channel(c, 0, Channel::DualMono)?;
            l.add(c, Entry::I16, &even(411, 1, at, back))?;
            if back > 0 {
                let two = l.sut.loudness_window(34).unwrap();
                l.set_channel(c, 0, Channel::Left)?;
                let one = l.sut.loudness_window(34).unwrap();
                if (two - one - 10.0 * 2f64.log10()).abs() > 1e-7 {
                    return Err(format!("DualMono measures {} LU above Left", two - one));
                }
            }
            l.add(c, Entry::I16, &even(411, 1, at + back, 90))
        },
    ));
    let depth = if t { 6 } else { 5 };
    v.push(space(
        "mid-stream",
        format!("all sequences of {} operations: audio of 3 lengths, and either channel of a stereo stream set to one of 5 types (a channel once Unused stays so until cleared), reset; model comparison after every step", depth),
        move |c| {
            use Channel::*;
            let mode = c.of(&[NOHIST, ALL]);
            let mut l = Lock::rust(2, 30, mode)?.what(FOCUS).windows(&[34, 100, 400, 3000]);
            // a channel that fed audio and became Unused leaves the buffered audio unspecified
            let mut fed = [false; 2];
            let mut tainted = [false; 2];
            for _ in 0..depth {
                match c.pick(14) {
                    k @ 0..=2 => {
                        let n = [14usize, 3, 80][k];
                        for i in 0..2 {
                            if l.m.map[i] != Unused {
                                fed[i] = true;
                            } else if fed[i] {
                                tainted[i] = true;
                            }
                        }
                        let from = l.m.n;
                        l.add(c, Entry::I16, &even(413, 2, from, n))?;
                    }
                    k @ 3..=12 => {
                        let i = (k - 3) / 5;
                        let ty = [Unused, Left, LeftSurround, Up110, Mm090][(k - 3) % 5];
                        if tainted[i] && ty != Unused {
                            return Ok(());
                        }
                        l.set_channel(c, i as u32, ty)?;
                    }
                    _ => {
                        l.reset(c)?;
                        fed = [false; 2];
                        tainted = [false; 2];
                    }
                }
            }
            Ok(())
        },
    ));
    v.push(super::in_context(if t { 6 } else { 5 }, FOCUS, &[NOHIST, ALL]));
    v
}
