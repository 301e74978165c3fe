//! Implementation and reference model in lock-step.
use crate::explore::{mix, Ch, Res};
use crate::model::*;
use crate::sut::*;
use ebur128::{Channel, EbuR128, Mode};

/// Which results to compare.
#[derive(Clone, Copy)]
pub struct What(pub u32);
pub const W_CONF: u32 = 1;
pub const W_MOM: u32 = 2;
pub const W_ST: u32 = 4;
pub const W_WIN: u32 = 8;
pub const W_GLOB: u32 = 16;
pub const W_LRA: u32 = 32;
pub const W_SP: u32 = 64;
pub const W_TP: u32 = 128;
pub const W_ALL: u32 = 255;

pub struct Lock<T: Sut> {
    pub sut: T,
    pub m: Model,
    pub what: u32,
    pub windows: Vec<u32>,
}

pub fn mode_of(bits: u8) -> Mode {
    Mode::from_bits_truncate(bits)
}

fn cmp(name: &str, got: R<f64>, want: R<Exp>) -> Res {
    match (got, want) {
        (Ok(v), Ok(e)) => {
            if e.admits(v) {
                Ok(())
            } else {
                Err(match e {
                    Exp::Energy(x) => {
                        format!("{} = {:?}, expected {:?} (energy {:?})", name, v, loudness(x), x)
                    }
                    e => format!("{} = {:?}, expected {:?}", name, v, e),
                })
            }
        }
        (Result::Err(a), Result::Err(b)) if a == b => Ok(()),
        (g, w) => Err(format!("{} = {:?}, expected {:?}", name, g, w)),
    }
}

pub fn same(name: &str, got: R, want: R) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} returned {:?}, expected {:?}", name, got, want))
    }
}

impl Lock<EbuR128> {
    pub fn rust(channels: u32, rate: u32, mode: u8) -> Res<Self> {
        let sut = new(channels, rate, mode_of(mode));
        let m = Model::new(channels, rate, mode);
        match (sut, m) {
            (Ok(sut), Ok(m)) => Ok(Lock { sut, m, what: W_ALL, windows: vec![] }),
            (a, b) => Err(format!(
                "new({}, {}, {:#x}): {:?}, expected {:?}",
                channels,
                rate,
                mode,
                a.map(|_| ()),
                b.map(|_| ())
            )),
        }
    }
    pub fn reset(&mut self, ch: &mut Ch) -> Res {
        self.sut.reset();
        self.m.reset();
        ch.say(|| "reset()".into());
        self.after(ch)
    }
    pub fn seed(&mut self, ch: &mut Ch, e: Entry, b: &Buf) -> Res {
        ch.say(|| format!("seed_frames {:?} {} frames x {}", e, b.frames(), b.channels()));
        same("seed_frames", self.sut.seed(e, b), self.m.seed(b))?;
        self.after(ch)
    }
}

impl Lock<CApi> {
    pub fn c(channels: u32, rate: u32, mode: u8) -> Res<Self> {
        let sut = CApi::new(channels, rate as _, mode as i32);
        let m = Model::new(channels, rate, mode);
        match (sut, m) {
            (Some(sut), Ok(m)) => Ok(Lock { sut, m, what: W_ALL, windows: vec![] }),
            (a, b) => Err(format!(
                "ebur128_init({}, {}, {:#x}): {:?}, expected {:?}",
                channels,
                rate,
                mode,
                a.is_some(),
                b.map(|_| ())
            )),
        }
    }
}

impl<T: Sut> Lock<T> {
    pub fn what(mut self, w: u32) -> Self {
        self.what = w;
        if w & W_TP == 0 {
            self.m.track_tp = false;
        }
        self
    }
    pub fn windows(mut self, w: &[u32]) -> Self {
        self.windows = w.to_vec();
        self
    }
    pub fn add(&mut self, ch: &mut Ch, e: Entry, b: &Buf) -> Res {
        ch.say(|| format!("add_frames {:?} {} frames x {}", e, b.frames(), b.channels()));
        same("add_frames", self.sut.add(e, b), self.m.add(b))?;
        self.after(ch)
    }
    pub fn set_channel(&mut self, ch: &mut Ch, c: u32, t: Channel) -> Res {
        ch.say(|| format!("set_channel({}, {:?})", c, t));
        same("set_channel", self.sut.set_channel(c, t), self.m.set_channel(c, t))?;
        self.after(ch)
    }
    pub fn set_channel_map(&mut self, ch: &mut Ch, t: &[Channel]) -> Res {
        ch.say(|| format!("set_channel_map({:?})", t));
        same("set_channel_map", self.sut.set_channel_map(t), self.m.set_channel_map(t))?;
        self.after(ch)
    }
    pub fn change_parameters(&mut self, ch: &mut Ch, c: u32, r: u32) -> Res {
        ch.say(|| format!("change_parameters({}, {})", c, r));
        same("change_parameters", self.sut.change_parameters(c, r), self.m.change_parameters(c, r))?;
        self.after(ch)
    }
    pub fn set_max_window(&mut self, ch: &mut Ch, w: u32) -> Res {
        ch.say(|| format!("set_max_window({})", w));
        same("set_max_window", self.sut.set_max_window(w), self.m.set_max_window(w))?;
        self.after(ch)
    }
    pub fn set_max_history(&mut self, ch: &mut Ch, h: u32) -> Res {
        ch.say(|| format!("set_max_history({})", h));
        same("set_max_history", self.sut.set_max_history(h), self.m.set_max_history(h))?;
        self.after(ch)
    }

    /// Records the state reached and, unless an earlier execution did so, compares everything.
    pub fn after(&mut self, ch: &mut Ch) -> Res {
        ch.state(self.m.hash);
        if ch.fresh() {
            self.check(ch)?;
        }
        Ok(())
    }

    pub fn check(&self, ch: &mut Ch) -> Res {
        ch.checked();
        let (s, m, w) = (&self.sut, &self.m, self.what);
        let mut out = 0u64;
        let mut note = |r: &R<f64>| {
            if let Ok(v) = r {
                out = mix(out, (v * 1e6) as i64 as u64)
            }
        };
        if w & W_CONF != 0 {
            if let Some(g) = s.get() {
                let a = (
                    g.mode().bits(),
                    g.channels() as usize,
                    g.rate(),
                    g.channel_map(),
                    g.max_window(),
                    g.max_history(),
                );
                let b = (m.mode, m.channels, m.rate, &m.map[..], m.window, m.history);
                if a != b {
                    return Err(format!("configuration is {:?}, expected {:?}", a, b));
                }
            }
        }
        if w & W_MOM != 0 {
            let r = s.momentary();
            note(&r);
            cmp("loudness_momentary", r, m.momentary())?;
        }
        if w & W_ST != 0 {
            let e = m.shortterm();
            if e != Ok(Exp::Any) {
                let r = s.shortterm();
                note(&r);
                cmp("loudness_shortterm", r, e)?;
            }
        }
        if w & W_WIN != 0 {
            for &x in &self.windows {
                if let Some(e) = m.window(x) {
                    let r = s.window(x);
                    note(&r);
                    cmp(&format!("loudness_window({})", x), r, e)?;
                }
            }
        }
        if w & W_GLOB != 0 {
            let r = s.global();
            note(&r);
            if m.has(I) {
                let (g, t, cnt) = m.integrated();
                if g == Exp::Any {
                    ch.ambiguous();
                }
                cmp("loudness_global", r, Ok(g))?;
                cmp("relative_threshold", s.relative_threshold(), Ok(t))?;
                if let Some(e) = s.get() {
                    cmp_count(e.gating_block_count_and_energy(), &cnt)?;
                }
            } else {
                cmp("loudness_global", r, Result::Err(crate::sut::Err::InvalidMode))?;
                cmp("relative_threshold", s.relative_threshold(), Result::Err(crate::sut::Err::InvalidMode))?;
                if let Some(e) = s.get() {
                    let g = e.gating_block_count_and_energy();
                    if g.is_some() {
                        return Err(format!("gating_block_count_and_energy = {:?} without mode I", g));
                    }
                }
            }
        }
        if w & W_LRA != 0 {
            let r = s.range();
            note(&r);
            if m.has(LRA) {
                let e = m.range();
                if e == Exp::Any {
                    ch.ambiguous();
                }
                cmp("loudness_range", r, Ok(e))?;
            } else {
                cmp("loudness_range", r, Result::Err(crate::sut::Err::InvalidMode))?;
            }
        }
        use crate::sut::Err as E;
        if w & W_SP != 0 {
            for c in 0..=m.channels {
                let (a, b) = if !m.has(SP) {
                    (Result::Err(E::InvalidMode), Result::Err(E::InvalidMode))
                } else if c == m.channels {
                    (Result::Err(E::InvalidChannel), Result::Err(E::InvalidChannel))
                } else {
                    (Ok(Exp::Val(m.sp[c], 1e-13 * m.sp[c])), Ok(Exp::Val(m.psp[c], 1e-13 * m.psp[c])))
                };
                let r = s.sample_peak(c as u32);
                note(&r);
                cmp(&format!("sample_peak({})", c), r, a)?;
                cmp(&format!("prev_sample_peak({})", c), s.prev_sample_peak(c as u32), b)?;
            }
        }
        if w & W_TP != 0 {
            for c in 0..=m.channels {
                let (a, b) = if !m.has(TP) {
                    (Result::Err(E::InvalidMode), Result::Err(E::InvalidMode))
                } else if c == m.channels {
                    (Result::Err(E::InvalidChannel), Result::Err(E::InvalidChannel))
                } else {
                    (Ok(m.true_peak(c)), Ok(m.prev_true_peak(c)))
                };
                let r = s.true_peak(c as u32);
                note(&r);
                cmp(&format!("true_peak({})", c), r, a)?;
                let p = s.prev_true_peak(c as u32);
                cmp(&format!("prev_true_peak({})", c), p, b)?;
                if m.has(TP) && c < m.channels {
                    for (n, t, x) in [
                        ("true_peak", r, s.sample_peak(c as u32)),
                        ("prev_true_peak", p, s.prev_sample_peak(c as u32)),
                    ] {
                        if let (Ok(t), Ok(x)) = (t, x) {
                            if !(t >= x) {
                                return Err(format!("{}({}) = {:?} is below the sample peak {:?}", n, c, t, x));
                            }
                        }
                    }
                }
            }
        }
        ch.outcome(out);
        Ok(())
    }
}

pub fn cmp_count(got: Option<(u64, f64)>, want: &Option<Gated>) -> Res {
    match (got, want) {
        (None, None) => Ok(()),
        (_, Some(g)) if g.ambiguous => Ok(()),
        (None, Some(g)) if g.nan => Ok(()),
        (Some((n, e)), Some(g)) if !g.nan && n == g.count && (e - g.sum).abs() <= 2e-8 * g.sum => Ok(()),
        (g, w) => Err(format!("gating_block_count_and_energy = {:?}, expected {:?}", g, w)),
    }
}

/// All comparable results of an analyser as (label, value) for differential oracles.
pub fn results(s: &EbuR128, windows: &[u32]) -> Vec<(String, R<f64>)> {
    let mut v = vec![];
    v.push(("loudness_momentary".to_string(), s.momentary()));
    v.push(("loudness_shortterm".to_string(), s.shortterm()));
    for &w in windows {
        v.push((format!("loudness_window({})", w), s.window(w)));
    }
    v.push(("loudness_global".to_string(), s.global()));
    v.push(("relative_threshold".to_string(), Sut::relative_threshold(s)));
    v.push(("loudness_range".to_string(), s.range()));
    let g = s.gating_block_count_and_energy();
    v.push(("gating count".to_string(), Ok(g.map_or(-1.0, |g| g.0 as f64))));
    v.push(("gating energy".to_string(), Ok(g.map_or(-1.0, |g| g.1))));
    for c in 0..=s.channels() {
        v.push((format!("sample_peak({})", c), Sut::sample_peak(s, c)));
        v.push((format!("prev_sample_peak({})", c), Sut::prev_sample_peak(s, c)));
        v.push((format!("true_peak({})", c), Sut::true_peak(s, c)));
        v.push((format!("prev_true_peak({})", c), Sut::prev_true_peak(s, c)));
    }
    v
}

pub fn config(s: &EbuR128) -> (u8, u32, u32, Vec<Channel>, usize, usize) {
    (s.mode().bits(), s.channels(), s.rate(), s.channel_map().to_vec(), s.max_window(), s.max_history())
}

pub fn close(a: f64, b: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a.is_infinite() || b.is_infinite() {
        // a level far below any audible signal counts as silence
        return a == b || (a < -180.0 && b < -180.0);
    }
    (a - b).abs() <= 1e-8 * a.abs().max(b.abs()).max(1.0) || (a < -180.0 && b < -180.0)
}

/// Two analysers that must be indistinguishable.
pub fn twins(a: &EbuR128, b: &EbuR128, windows: &[u32], what: &str) -> Res {
    if config(a) != config(b) {
        return Err(format!("{}: configuration {:?} differs from {:?}", what, config(a), config(b)));
    }
    for ((n, x), (_, y)) in results(a, windows).into_iter().zip(results(b, windows)) {
        let ok = match (x, y) {
            (Ok(x), Ok(y)) => close(x, y),
            (x, y) => x == y,
        };
        if !ok {
            return Err(format!("{}: {} is {:?} but {:?} in the reference analyser", what, n, x, y));
        }
    }
    Ok(())
}

pub fn hash_results(s: &EbuR128) -> u64 {
    let mut h = 7;
    for (_, v) in results(s, &[]) {
        h = mix(h, match v {
            Ok(v) => (v * 1e5).round() as i64 as u64,
            Result::Err(e) => 0xE000 + match e {
                crate::sut::Err::NoMem => 1,
                crate::sut::Err::InvalidMode => 2,
                _ => 3,
            },
        });
    }
    h
}
