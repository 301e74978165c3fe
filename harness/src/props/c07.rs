//! C07: sample peaks.
use crate::explore::*;
use crate::lock::*;
use crate::model::*;
use crate::sut::*;

const FOCUS: u32 = W_CONF | W_SP | W_TP;

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let modes = [SP, ALL, SP | I | HIST];
    // position of the maximum
    v.push(space(
        "position",
        "calls of 1..=40 frames: every position, sign and channel of the single maximum, 3 modes, 8 entry points, stereo/3ch".to_string(),
        move |c| {
            let n = c.range(1, 40);
            let p = c.pick(n);
            let chn = c.of(&[2usize, 3]);
            let k = c.pick(chn);
            let neg = c.flag();
            let m = c.of(&modes);
            let e = c.of(&ENTRIES);
            if !t && (n + p) % 3 != 0 && e != Entry::F32 {
                return Ok(());
            }
            let mut d = vec![100i16; n * chn];
            d[p * chn + k] = if neg { -20001 } else { 20001 };
            let mut l = Lock::rust(chn as u32, 30, m)?.what(FOCUS & if m == ALL { 255 } else { !W_TP });
            if c.fresh() {
                l.add(c, e, &Buf::Grid(chn, vec![-3000; 5 * chn]))?;
                l.add(c, e, &Buf::Grid(chn, d))?;
                l.add(c, e, &Buf::Grid(chn, vec![77; 2 * chn]))?;
            }
            Ok(())
        },
    ));
    // channel attribution
    v.push(space(
        "channels",
        "1..=64 channels: the maximum in every channel, default map (incl. unused channels), 4 entry points".to_string(),
        |c| {
            let chn = c.range(1, 64);
            let k = c.pick(chn);
            let e = c.of(&[Entry::I16, Entry::PI32, Entry::F32, Entry::PF64]);
            let mut l = Lock::rust(chn as u32, 48000, SP | I)?.what(FOCUS & !W_TP);
            let mut d = vec![0i16; 6 * chn];
            for f in 0..6 {
                for x in 0..chn {
                    d[f * chn + x] = (x as i16 + 1) * if f % 2 == 0 { 1 } else { -1 };
                }
            }
            d[3 * chn + k] = i16::MIN;
            l.add(c, e, &Buf::Grid(chn, d))
        },
    ));
    // call sequences: what belongs to the previous call, what to all of them
    let depth = if t { 6 } else { 5 };
    v.push(space(
        "call-sequences",
        format!("all sequences of {} calls over a menu of 7 (empty, silent, quiet, loud, negative, long across blocks, other channel) plus reset", depth),
        move |c| {
            let mut l = Lock::rust(2, 30, TP | I)?.what(FOCUS);
            for _ in 0..depth {
                let b = match c.pick(8) {
                    0 => Buf::Grid(2, vec![500, -600]),
                    1 => Buf::Grid(2, vec![]),
                    2 => Buf::Grid(2, vec![0, 0, 0, 0]),
                    3 => Buf::Grid(2, vec![-32768, 3, 0, 1]),
                    4 => Buf::Grid(2, vec![0, 9000]),
                    5 => {
                        let mut d = vec![1i16; 2 * 40];
                        d[0] = -7000;
                        d[2 * 11 + 1] = 7001;
                        d[2 * 39] = 6999;
                        Buf::Grid(2, d)
                    }
                    6 => {
                        let mut d = vec![-1i16; 2 * 13];
                        d[24] = 12000;
                        Buf::Grid(2, d)
                    }
                    _ => {
                        l.reset(c)?;
                        continue;
                    }
                };
                l.add(c, Entry::I16, &b)?;
            }
            Ok(())
        },
    ));
    v.push(space(
        "values",
        "f64 magnitudes 2^-200..2^200 x 4 mantissas (1, 1 + 2^-52, 2 - 2^-52, 4/3) with both signs, zero, subnormal: prev and overall peak".to_string(),
        |c| {
            let a = c.pick(402) as i32 - 201;
            let b = c.of(&[0i32, -200, 150, 3, -60]);
            let m = c.of(&[1.0, 1.0 + f64::EPSILON, 2.0 - f64::EPSILON, 4.0 / 3.0]);
            let neg = c.flag();
            let x = if a == -201 { 5e-324 } else { 2f64.powi(a) * m } * if neg { -1.0 } else { 1.0 };
            let mut l = Lock::rust(1, 48000, SP)?.what(FOCUS & !W_TP);
            l.add(c, Entry::F64, &Buf::F64(1, vec![0.0, x, -0.0]))?;
            l.add(c, Entry::PF64, &Buf::F64(1, vec![2f64.powi(b)]))
        },
    ));
    v.push(space(
        "values-of-each-format",
        "all 65536 i16 values, i32 values 2^k, 2^k+-1, 2^k+-2^j and negations, f32 of every exponent with 5 mantissas, all entry points of the format (and wider ones): the peak is that value exactly".to_string(),
        |c| {
            let kind = c.pick(3);
            let (b, entries): (Buf, &[Entry]) = match kind {
                0 => {
                    let x = (c.pick(65536) as i32 - 32768) as i16;
                    (Buf::Grid(1, vec![0, x, 0]), &ENTRIES)
                }
                1 => {
                    let k = c.pick(32);
                    let j = c.pick(k + 1);
                    let d = c.of(&[0i64, 1, -1]);
                    let x = ((1i64 << k) + d * (1i64 << j)) * if c.flag() { -1 } else { 1 };
                    let x = x.clamp(i32::MIN as i64, i32::MAX as i64) as i32;
                    (Buf::I32(1, vec![0, x, 0]), &[Entry::I32, Entry::PI32, Entry::F64, Entry::PF64])
                }
                _ => {
                    let ex = c.pick(250) as i32 - 126;
                    let m = c.of(&[1.0f64, 1.5, 1.9999998807907104, -1.0, -1.3333333730697632]);
                    (Buf::F32(1, vec![0.0, (m * 2f64.powi(ex)) as f32, 0.0]), &[Entry::F32, Entry::PF32, Entry::F64, Entry::PF64])
                }
            };
            let e = c.of(entries);
            let mut l = Lock::rust(1, 48000, SP)?.what(FOCUS & !W_TP);
            l.add(c, e, &b)
        },
    ));
    v.push(space(
        "long-calls",
        "one call of 48000 x {1,2,5} samples: maximum at every 97th position and at the last ones".to_string(),
        |c| {
            let chn = c.of(&[1usize, 2, 5]);
            let n = 48000usize / 4;
            let p = (c.pick(n / 97 + 8)) * 97;
            let p = if p >= n { n - 1 - (p - n) / 97 } else { p };
            let k = p % chn;
            let mut d = vec![0.25f32; n * chn];
            d[p * chn + k] = -0.75;
            let mut s = new(chn as u32, 48000, mode_of(SP)).unwrap();
            s.add_frames_f32(&d).unwrap();
            c.checked();
            c.state(mix(chn as u64, p as u64));
            for x in 0..chn {
                let w = if x == k { 0.75 } else { 0.25 };
                let g = (s.sample_peak(x as u32), s.prev_sample_peak(x as u32));
                if g != (Ok(w), Ok(w)) {
                    return Err(format!("peaks of channel {} are {:?}, expected {} (peak at frame {})", x, g, w, p));
                }
            }
            Ok(())
        },
    ));
    v.push(super::in_context(if t { 6 } else { 5 }, FOCUS, &[SP, TP, ALL]));
    v
}
