//! C20: K-weighting at every sample rate.
use crate::explore::*;
use crate::known;
use crate::lock::mode_of;
use crate::model::*;
use crate::signal::*;
use crate::sut::*;
use ebur128::EbuR128;

/// Direct form II fourth-order filter.
struct Iir {
    b: [f64; 5],
    a: [f64; 5],
    s: [f64; 4],
}
impl Iir {
    fn new(rate: u32) -> Iir {
        let (b, a) = combined(rate as f64);
        Iir { b, a, s: [0.0; 4] }
    }
    fn next(&mut self, x: f64) -> f64 {
        let (a, b, s) = (&self.a, &self.b, &mut self.s);
        let w = x - a[1] * s[0] - a[2] * s[1] - a[3] * s[2] - a[4] * s[3];
        let y = b[0] * w + b[1] * s[0] + b[2] * s[1] + b[3] * s[2] + b[4] * s[3];
        *s = [w, s[0], s[1], s[2]];
        y
    }
}

/// |H(f)|^2 of the reference design.
fn gain2(rate: f64, f: f64) -> f64 {
    let w = 2.0 * std::f64::consts::PI * f / rate;
    let mut g = 1.0;
    for s in sections(rate) {
        let p = |c0: f64, c1: f64, c2: f64| {
            let re = c0 + c1 * w.cos() + c2 * (2.0 * w).cos();
            let im = -c1 * w.sin() - c2 * (2.0 * w).sin();
            re * re + im * im
        };
        g *= p(s[0], s[1], s[2]) / p(1.0, s[3], s[4]);
    }
    g
}

fn mono(rate: u32) -> Res<EbuR128> {
    EbuR128::new(1, rate, mode_of(M)).map_err(|e| format!("new(1, {}): {:?}", rate, e))
}

fn near(what: &str, rate: u32, got: f64, want: f64, tol: f64) -> Res {
    if (got - want).abs() <= tol {
        Ok(())
    } else {
        Err(format!("{} Hz: {} measures {:?} LUFS, expected {:?}", rate, what, got, want))
    }
}

/// The first 16 samples of the impulse response, and the step response after 50 ms.
fn response(c: &mut Ch, rate: u32, long: bool) -> Res {
    let win = 1 + 16_000 / rate; // ms: at least 16 frames
    let frames = rate as usize * win as usize / 1000;
    let mut s = mono(rate)?;
    let mut f = Iir::new(rate);
    let mut e = 0.0;
    let a = 0.75;
    for i in 0..16 {
        let x = if i == 0 { a } else { 0.0 };
        s.add_frames_f64(&[x]).unwrap();
        let y = f.next(x);
        e += y * y;
        if i < 4 || i == 7 || i == 15 {
            c.checked();
            near("impulse response", rate, s.loudness_window(win).unwrap(), loudness(e / frames as f64), 1e-5)?;
        }
    }
    if long {
        // a step: the slow part of the response
        let n = rate as usize / 20;
        let mut s = mono(rate)?;
        let mut f = Iir::new(rate);
        let v = vec![a; n];
        s.seed_frames_f64(&v).unwrap();
        for _ in 0..n {
            f.next(a);
        }
        // measured over as much again as fits into a few ms
        let win = 4 + 16_000 / rate;
        let frames = rate as usize * win as usize / 1000;
        s.add_frames_f64(&vec![a; frames]).unwrap();
        let e: f64 = (0..frames).map(|_| f.next(a)).map(|y| y * y).sum();
        c.checked();
        let tol = if rate <= 384_000 { 1e-3 } else { 0.5 };
        near("step response", rate, s.loudness_window(win).unwrap(), loudness(e / frames as f64), tol)?;
    }
    Ok(())
}

const STANDARD: [u32; 21] = [
    8000, 11025, 12000, 16000, 22050, 24000, 32000, 37800, 44056, 44100, 47250, 48000, 50000, 64000, 88200, 96000, 128000, 176400, 192000,
    352800, 384000,
];

/// Momentary loudness after an impulse and 60 s of silence.
fn decayed(rate: u32) -> Res<f64> {
    let mut s = mono(rate)?;
    let mut b = vec![0.0; rate as usize * 60];
    b[0] = 1.0;
    s.add_frames_f64(&b).unwrap();
    Ok(s.loudness_momentary().unwrap())
}

/// Prints the rates of the known finding as ranges (development helper).
pub fn list_unstable() {
    let mut v: Vec<(u32, u32)> = vec![];
    for r in 16..=6000 {
        if !(decayed(r).unwrap() < -100.0) {
            match v.last_mut() {
                Some(x) if x.1 + 1 == r => x.1 = r,
                _ => v.push((r, r)),
            }
        }
    }
    println!("{}", v.iter().map(|(a, b)| format!("{}-{}", a, b)).collect::<Vec<_>>().join(","));
}

pub fn spaces(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let known = known::rates("C20");
    v.push(space(
        "stability-low",
        "every rate 16..=6000: impulse, then 60 s of silence decay below -100 LUFS (the rates of the known finding excepted)".to_string(),
        move |c| {
            let rate = c.range(16, 6000) as u32;
            c.state(rate as u64);
            c.checked();
            let l = decayed(rate)?;
            if l < -100.0 {
                return Ok(());
            }
            if known.iter().any(|(a, b)| (*a..=*b).contains(&rate)) {
                c.ambiguous();
                return Ok(());
            }
            Err(format!("{} Hz: 60 s of silence after an impulse measure {:?} LUFS", rate, l))
        },
    ));
    v.push(space(
        "stability-high",
        "rates from 6 kHz in steps of 500 Hz, the standard rates and their neighbours up to 2822400: full-scale noise, then 3 s (above 400 kHz: 1 s) of silence decay below -100 LUFS".to_string(),
        move |c| {
            let mut l: Vec<u32> = (6000..=if t { 400_000 } else { 100_000 }).step_by(500).collect();
            for s in STANDARD {
                l.extend([s - 1, s, s + 1]);
            }
            l.extend([500_000, 705_600, 768_000, 1_411_200, 2_000_000, 2_822_399, 2_822_400]);
            let rate = c.of(&l);
            c.state(rate as u64);
            c.checked();
            let mut s = mono(rate)?;
            let n = rate as usize / 5;
            s.add_frames_i16(&(0..n).map(|i| (noise(701, 0, i) * 32767.0) as i16).collect::<Vec<_>>()).unwrap();
            s.add_frames_i16(&vec![0; if rate > 400_000 { rate as usize } else { rate as usize * 3 }]).unwrap();
            let l = s.loudness_momentary().unwrap();
            if l < -100.0 {
                Ok(())
            } else {
                Err(format!("{} Hz: silence after noise measures {:?} LUFS", rate, l))
            }
        },
    ));
    let upto = if t { 400_000 } else { 200_000 };
    v.push(space(
        "every-rate",
        format!("every rate 4000..={}: first 16 samples of the impulse response, step response after 50 ms", upto),
        move |c| {
            let rate = c.range(4000, upto) as u32;
            c.state(rate as u64);
            response(c, rate, rate <= 30_000 || t || rate % 10 == 0)
        },
    ));
    let step = if t { 1 } else { 40 };
    v.push(space(
        "high-rates",
        format!("every {}th rate up to 2822400 and the limits: impulse response", step),
        move |c| {
            let n = (2_822_400 - upto) / step;
            let k = c.range(0, n + 2);
            let rate = if k <= n { upto + k * step } else { 2_822_400 - (k - n - 1) } as u32;
            c.state(rate as u64);
            response(c, rate, k % 50 == 0)
        },
    ));
    v.push(space(
        "tones",
        "21 standard rates x 19 frequencies from 20 Hz to 20 kHz (below 0.45 of the rate) x 2 levels: 400 ms of settled tone against the analytic gain of the reference design".to_string(),
        move |c| {
            let rate = c.of(&STANDARD);
            let f = c.of(&[
                20.0, 30.0, 37.5, 50.0, 70.0, 100.0, 150.0, 250.0, 400.0, 500.0, 1000.0, 1250.0, 1500.0, 1680.0, 2000.0, 3000.0, 5000.0, 10000.0,
                20000.0,
            ]);
            let a = c.of(&[0.5, db(-40.0)]);
            if f > 0.45 * rate as f64 {
                return Ok(());
            }
            c.state(mix(rate as u64, f as u64));
            c.checked();
            let mut s = mono(rate)?;
            let n = rate as usize * 4 / 5;
            let x = sine(1, rate as f64, f, 0, n, a);
            s.add(Entry::F64, &x).unwrap();
            let want = loudness(gain2(rate as f64, f) * a * a / 2.0);
            near(&format!("a {} Hz tone", f), rate, s.loudness_window(400).unwrap(), want, 0.01)
        },
    ));
    v.push(space(
        "calibration",
        format!("a full-scale 997 Hz sine in Left at every multiple of {} Hz from 8 to 384 kHz, all standard rates and 20 higher ones: -3.01 LUFS (momentary and integrated)", if t { 100 } else { 1000 }),
        move |c| {
            let st = if t { 100 } else { 1000 };
            let mut l: Vec<u32> = (8000..=384_000).step_by(st).collect();
            l.extend(STANDARD);
            l.extend([400_000u32, 705_600, 768_000, 1_000_000, 1_411_200, 2_822_400]);
            let rate = c.of(&l);
            let chn = c.of(&[1u32, 2]);
            if chn == 2 && rate > 100_000 {
                return Ok(());
            }
            c.state(rate as u64);
            c.checked();
            let mut s = EbuR128::new(chn, rate, mode_of(I)).map_err(|e| format!("{:?}", e))?;
            // the first block contains the switch-on transient: let it pass by seeding
            let n = rate as usize / 5;
            let x = sine(1, rate as f64, 997.0, 0, n + rate as usize * 6 / 10, 1.0);
            let y = match x {
                Buf::F64(_, v) => Buf::F64(chn as usize, v.iter().flat_map(|x| [*x, 0.0].into_iter().take(chn as usize)).collect()),
                _ => unreachable!(),
            };
            s.seed(Entry::F64, &y.slice(0, n)).unwrap();
            s.add(Entry::F64, &y.slice(n, y.frames())).unwrap();
            near("a full-scale 997 Hz sine (momentary)", rate, s.loudness_momentary().unwrap(), -3.01, 0.05)?;
            near("a full-scale 997 Hz sine (integrated)", rate, s.loudness_global().unwrap(), -3.01, 0.05)
        },
    ));
    v.push(space(
        "published-48k",
        "48 kHz: impulse, step, and 40 noise bursts through the cascade with the coefficients printed in BS.1770; every window length 1..=400 ms".to_string(),
        |c| {
            let k = c.pick(42);
            c.state(k as u64);
            let mut s = mono(48000)?;
            let n = 48000 * 6 / 10;
            let x: Vec<f64> = (0..n)
                .map(|i| match k {
                    0 => (i == 9000) as u32 as f64,
                    1 => 0.5,
                    k => noise(703, k, i / (k - 1)) * 0.5,
                })
                .collect();
            s.add_frames_f64(&x).unwrap();
            let sec = [
                [1.53512485958697, -2.69169618940638, 1.19839281085285, -1.69065929318241, 0.73248077421585],
                [1.0, -2.0, 1.0, -1.99004745483398, 0.99007225036621],
            ];
            let mut y = x;
            for q in sec {
                let (mut x1, mut x2, mut y1, mut y2) = (0.0, 0.0, 0.0, 0.0);
                for v in y.iter_mut() {
                    let o = q[0] * *v + q[1] * x1 + q[2] * x2 - q[3] * y1 - q[4] * y2;
                    x2 = x1;
                    x1 = *v;
                    y2 = y1;
                    y1 = o;
                    *v = o;
                }
            }
            for w in 1..=400 {
                c.checked();
                let m = w as usize * 48;
                let e = y[n - m..].iter().map(|v| v * v).sum::<f64>() / m as f64;
                let l = loudness(e);
                if l < -120.0 {
                    continue;
                }
                near(&format!("signal {} over {} ms", k, w), 48000, s.loudness_window(w).unwrap(), l, 1e-3)?;
            }
            Ok(())
        },
    ));
    v
}
