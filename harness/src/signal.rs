//! Deterministic audio.
use crate::sut::Buf;

/// Broadband pseudo-noise in [-1, 1) addressed by (stream, channel, frame).
pub fn noise(stream: u64, c: usize, f: usize) -> f64 {
    let mut x = (f as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)
        ^ (c as u64 + 1).wrapping_mul(0xC2B2_AE3D_27D4_EB4F)
        ^ stream.wrapping_mul(0x1656_67B1_9E37_79F9);
    x ^= x >> 31;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^= x >> 31;
    (x >> 11) as f64 / (1u64 << 52) as f64 - 1.0
}

pub fn db(x: f64) -> f64 {
    10f64.powf(x / 20.0)
}

/// Noise on the 16 bit grid; every channel has its own content and level.
pub fn grid(stream: u64, ch: usize, from: usize, frames: usize, amp: f64) -> Buf {
    let mut v = Vec::with_capacity(ch * frames);
    for f in from..from + frames {
        for c in 0..ch {
            let x = noise(stream, c, f) * amp * 32767.0 / (1.0 + 0.25 * (c % 5) as f64);
            v.push(x as i16);
        }
    }
    Buf::Grid(ch, v)
}

/// Noise in f64 (any amplitude).
pub fn wide(stream: u64, ch: usize, from: usize, frames: usize, amp: f64) -> Buf {
    let mut v = Vec::with_capacity(ch * frames);
    for f in from..from + frames {
        for c in 0..ch {
            v.push(noise(stream, c, f) * amp / (1.0 + 0.25 * (c % 5) as f64));
        }
    }
    Buf::F64(ch, v)
}

pub fn sine(ch: usize, rate: f64, freq: f64, from: usize, frames: usize, amp: f64) -> Buf {
    let mut v = Vec::with_capacity(ch * frames);
    for f in from..from + frames {
        for c in 0..ch {
            v.push(amp * (2.0 * std::f64::consts::PI * freq * f as f64 / rate + c as f64 * 0.3).sin());
        }
    }
    Buf::F64(ch, v)
}

pub fn silence(ch: usize, frames: usize) -> Buf {
    Buf::Grid(ch, vec![0; ch * frames])
}

pub fn concat(bufs: &[Buf]) -> Buf {
    let ch = bufs[0].channels();
    let mut v = vec![];
    for b in bufs {
        for i in 0..b.len() {
            v.push(b.at(i));
        }
    }
    Buf::F64(ch, v)
}
