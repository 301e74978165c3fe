//! The reference model: naive, keeps explicit lists, recomputes every result from scratch.
use crate::explore::mix;
use crate::sut::{Buf, Err, R};
use ebur128::Channel;

pub const M: u8 = 1;
pub const S: u8 = 2 | M;
pub const I: u8 = 4 | M;
pub const LRA: u8 = 8 | S;
pub const SP: u8 = 16 | M;
pub const TP: u8 = 32 | SP;
pub const HIST: u8 = 64;
pub const ALL: u8 = 127;
pub const NOHIST: u8 = 63;

pub const TYPES: [Channel; 32] = [
    Channel::Unused,
    Channel::Left,
    Channel::Right,
    Channel::Center,
    Channel::LeftSurround,
    Channel::RightSurround,
    Channel::DualMono,
    Channel::MpSC,
    Channel::MmSC,
    Channel::Mp060,
    Channel::Mm060,
    Channel::Mp090,
    Channel::Mm090,
    Channel::Mp135,
    Channel::Mm135,
    Channel::Mp180,
    Channel::Up000,
    Channel::Up030,
    Channel::Um030,
    Channel::Up045,
    Channel::Um045,
    Channel::Up090,
    Channel::Um090,
    Channel::Up110,
    Channel::Um110,
    Channel::Up135,
    Channel::Um135,
    Channel::Up180,
    Channel::Tp000,
    Channel::Bp000,
    Channel::Bp045,
    Channel::Bm045,
];

pub fn weight(t: Channel) -> f64 {
    match t {
        Channel::Unused => 0.0,
        Channel::LeftSurround
        | Channel::RightSurround
        | Channel::Mp060
        | Channel::Mm060
        | Channel::Mp090
        | Channel::Mm090 => 1.41,
        Channel::DualMono => 2.0,
        _ => 1.0,
    }
}

pub fn default_map(n: usize) -> Vec<Channel> {
    use Channel::*;
    match n {
        4 => vec![Left, Right, LeftSurround, RightSurround],
        5 => vec![Left, Right, Center, LeftSurround, RightSurround],
        _ => {
            let six = [Left, Right, Center, Unused, LeftSurround, RightSurround];
            (0..n).map(|i| if i < 6 { six[i] } else { Unused }).collect()
        }
    }
}

/// BS.1770 K-weighting as two second-order sections `[b0,b1,b2,a1,a2]`, re-designed for `rate`.
pub fn sections(rate: f64) -> [[f64; 5]; 2] {
    let pi = std::f64::consts::PI;
    let (f0, g, q) = (1681.974450955533, 3.999843853973347, 0.7071752369554196);
    let k = (pi * f0 / rate).tan();
    let vh = 10f64.powf(g / 20.0);
    let vb = vh.powf(0.4996667741545416);
    let a0 = 1.0 + k / q + k * k;
    let shelf = [
        (vh + vb * k / q + k * k) / a0,
        2.0 * (k * k - vh) / a0,
        (vh - vb * k / q + k * k) / a0,
        2.0 * (k * k - 1.0) / a0,
        (1.0 - k / q + k * k) / a0,
    ];
    let (f0, q) = (38.13547087602444, 0.5003270373238773);
    let k = (pi * f0 / rate).tan();
    let a0 = 1.0 + k / q + k * k;
    let hp = [1.0, -2.0, 1.0, 2.0 * (k * k - 1.0) / a0, (1.0 - k / q + k * k) / a0];
    [shelf, hp]
}

/// The same filter as one fourth-order section (b, a).
pub fn combined(rate: f64) -> ([f64; 5], [f64; 5]) {
    let [p, r] = sections(rate);
    let (pb, pa) = ([p[0], p[1], p[2]], [1.0, p[3], p[4]]);
    let (rb, ra) = ([r[0], r[1], r[2]], [1.0, r[3], r[4]]);
    let conv = |x: [f64; 3], y: [f64; 3]| {
        [
            x[0] * y[0],
            x[0] * y[1] + x[1] * y[0],
            x[0] * y[2] + x[1] * y[1] + x[2] * y[0],
            x[1] * y[2] + x[2] * y[1],
            x[2] * y[2],
        ]
    };
    (conv(pb, rb), conv(pa, ra))
}

pub const TAPS: usize = 48;
/// Interpolation filter for `factor`, `coef[tap][phase]`.
pub fn interp_coefs(factor: usize) -> Vec<Vec<f64>> {
    let pi = std::f64::consts::PI;
    let n = TAPS / factor;
    let mut v = vec![vec![0.0; factor]; n];
    for j in 0..TAPS {
        let w = 0.5 * (1.0 - (2.0 * pi * j as f64 / TAPS as f64).cos());
        let m = j as f64 - TAPS as f64 / 2.0;
        v[j / factor][j % factor] = if m.abs() > 1e-6 {
            w * (m * pi / factor as f64).sin() / (m * pi / factor as f64)
        } else {
            w
        };
    }
    v
}

pub fn factor_for(rate: u32) -> usize {
    if rate < 96000 {
        4
    } else if rate < 192000 {
        2
    } else {
        1
    }
}

pub fn loudness(e: f64) -> f64 {
    10.0 * e.log10() - 0.691
}
pub fn energy(l: f64) -> f64 {
    10f64.powf((l + 0.691) / 10.0)
}
/// Lower edge of histogram bin `i` (i = 1000: upper edge of the last one).
pub fn bin_edge(i: usize) -> f64 {
    energy(i as f64 / 10.0 - 70.0)
}
pub fn bin_centre(i: usize) -> f64 {
    energy(i as f64 / 10.0 - 69.95)
}
pub fn gate() -> f64 {
    energy(-70.0)
}

/// Relative distance to a decision boundary below which the model does not decide.
pub const MARGIN: f64 = 1e-8;
pub fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= MARGIN * a.abs().max(b.abs())
}

/// An expected numeric result.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Exp {
    /// Loudness of this energy (0: -inf).
    Energy(f64),
    /// This value within the absolute tolerance.
    Val(f64, f64),
    /// Any of the two.
    Either(f64, f64, f64),
    Nan,
    /// At least this (and not NaN).
    AtLeast(f64),
    /// Not decided (too close to a decision boundary, or unspecified).
    Any,
}

impl Exp {
    pub fn admits(&self, v: f64) -> bool {
        match *self {
            Exp::Energy(e) => {
                if e <= 1e-24 {
                    // digital silence up to filter residue
                    return v == f64::NEG_INFINITY || v < -180.0;
                }
                if e.is_infinite() {
                    return v == f64::INFINITY;
                }
                (v - loudness(e)).abs() <= 1e-7
            }
            Exp::Val(x, tol) => {
                if x.is_infinite() {
                    v == x
                } else {
                    (v - x).abs() <= tol
                }
            }
            Exp::Either(a, b, tol) => Exp::Val(a, tol).admits(v) || Exp::Val(b, tol).admits(v),
            Exp::Nan => v.is_nan(),
            Exp::AtLeast(x) => v >= x,
            Exp::Any => true,
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Gated {
    pub count: u64,
    pub sum: f64,
    pub threshold: f64,
    pub ambiguous: bool,
    pub nan: bool,
}

/// Two-stage gating over block energies that already passed the absolute gate.
pub fn gated(blocks: impl Iterator<Item = f64> + Clone) -> Option<Gated> {
    let (mut n, mut sum) = (0u64, 0.0);
    for b in blocks.clone() {
        n += 1;
        sum += b;
    }
    if n == 0 {
        return None;
    }
    if sum.is_nan() {
        return Some(Gated { nan: true, ..Default::default() });
    }
    let thr = sum / n as f64 * 10f64.powf(-1.0);
    let mut g = Gated { threshold: thr, ..Default::default() };
    for b in blocks {
        if near(b, thr) {
            g.ambiguous = true;
        }
        if b >= thr {
            g.count += 1;
            g.sum += b;
        }
    }
    Some(g)
}

/// EBU 3342 range over 3 s block energies that already passed the absolute gate.
pub fn range(blocks: &[f64]) -> Exp {
    if blocks.is_empty() {
        return Exp::Val(0.0, 0.0);
    }
    if blocks.iter().any(|b| b.is_nan()) {
        return Exp::Nan;
    }
    let thr = blocks.iter().sum::<f64>() / blocks.len() as f64 * 10f64.powf(-2.0);
    let mut v: Vec<f64> = vec![];
    for &b in blocks {
        if near(b, thr) {
            return Exp::Any;
        }
        if b >= thr {
            v.push(b);
        }
    }
    if v.is_empty() {
        return Exp::Val(0.0, 0.0);
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    // nearest ranks of 10% and 95%, ties rounded up, in exact integer arithmetic
    let n = v.len() - 1;
    let (lo, hi) = ((2 * n + 10) / 20, (38 * n + 20) / 40);
    let f = |h: usize, l: usize| loudness(v[h]) - loudness(v[l]);
    let r = f(hi, lo);
    if r.is_nan() {
        return Exp::Any;
    }
    Exp::Val(r, 2e-7)
}

pub struct Quantised {
    pub energies: Vec<f64>,
    pub ambiguous: bool,
}

/// Histogram bin of a block energy (None: below the gate) and whether it is too close to an edge.
pub fn bin_of(e: f64) -> (Option<usize>, bool) {
    if e.is_nan() {
        return (Some(0), false);
    }
    if near(e, gate()) {
        return (None, true);
    }
    if e < gate() {
        return (None, false);
    }
    let i = ((loudness(e) + 70.0) * 10.0).floor().clamp(0.0, 999.0) as usize;
    for j in [i.saturating_sub(1), i, i + 1] {
        if j > 0 && j <= 999 && near(e, bin_edge(j)) {
            return (Some(i), true);
        }
    }
    // settle on the edges themselves
    let mut i = i;
    while i > 0 && e < bin_edge(i) {
        i -= 1;
    }
    while i < 999 && e >= bin_edge(i + 1) {
        i += 1;
    }
    (Some(i), false)
}

#[derive(Clone)]
pub struct Model {
    pub mode: u8,
    pub channels: usize,
    pub rate: u32,
    pub map: Vec<Channel>,
    pub window: usize,
    pub history: usize,
    pub s100: usize,
    b: [f64; 5],
    a: [f64; 5],
    coefs: Vec<Vec<f64>>,
    /// Frames since the audio buffers were last cleared.
    pub n: usize,
    /// Filtered samples since then (only the newest `keep`; oldest first).
    filt: Vec<Vec<f64>>,
    fs: Vec<[f64; 4]>,
    fir: Vec<Vec<f64>>,
    fir_pos: usize,
    /// Largest recent amplitude (tolerance scale of the true peak).
    pub amp: f64,
    /// The same for the retained overall peak.
    kept_amp: f64,
    pub sp: Vec<f64>,
    pub psp: Vec<f64>,
    /// Interpolated peaks only.
    tp: Vec<f64>,
    ptp: Vec<f64>,
    /// Block energies that passed the absolute gate, oldest first.
    pub blocks: Vec<f64>,
    pub st: Vec<f64>,
    /// A block was too close to the absolute gate to tell.
    pub blocks_unsure: bool,
    pub st_unsure: bool,
    pub hash: u64,
    /// Peaks of samples beyond f32 range are not modelled.
    pub tp_unsure: Vec<bool>,
    pub track_tp: bool,
}

impl Model {
    pub fn new(channels: u32, rate: u32, mode: u8) -> R<Model> {
        if channels == 0 || channels > 64 || !(16..=2822400).contains(&rate) {
            return Result::Err(Err::NoMem);
        }
        let window = if mode & S == S {
            3000
        } else if mode & M == M {
            400
        } else {
            return Result::Err(Err::InvalidMode);
        };
        let c = channels as usize;
        let mut m = Model {
            mode,
            channels: c,
            rate,
            map: default_map(c),
            window,
            history: usize::MAX,
            s100: 0,
            b: [0.0; 5],
            a: [0.0; 5],
            coefs: vec![],
            n: 0,
            filt: vec![],
            fs: vec![],
            fir: vec![],
            fir_pos: 0,
            amp: 0.0,
            kept_amp: 0.0,
            sp: vec![0.0; c],
            psp: vec![0.0; c],
            tp: vec![0.0; c],
            ptp: vec![0.0; c],
            blocks: vec![],
            st: vec![],
            blocks_unsure: false,
            st_unsure: false,
            hash: 0,
            tp_unsure: vec![false; c],
            track_tp: mode & TP == TP,
        };
        m.configure();
        m.clear_audio();
        m.touch(1, channels as u64 * 1_000_003 + rate as u64 * 131 + mode as u64);
        Ok(m)
    }

    fn touch(&mut self, tag: u64, v: u64) {
        self.hash = mix(mix(self.hash, tag), v);
    }

    pub fn has(&self, m: u8) -> bool {
        self.mode & m == m
    }

    /// New filters for the current rate and channels.
    fn configure(&mut self) {
        self.s100 = (self.rate as usize + 5) / 10;
        let (b, a) = combined(self.rate as f64);
        self.b = b;
        self.a = a;
        self.coefs = if self.track_tp { interp_coefs(factor_for(self.rate)) } else { vec![] };
        self.clear_filters();
    }

    fn clear_filters(&mut self) {
        self.fs = vec![[0.0; 4]; self.channels];
        self.fir = vec![vec![0.0; TAPS]; self.channels];
        self.fir_pos = 0;
        self.amp = 0.0;
        self.psp = vec![0.0; self.channels];
        self.ptp = vec![0.0; self.channels];
    }

    fn clear_audio(&mut self) {
        self.n = 0;
        self.filt = vec![vec![]; self.channels];
    }

    /// Upper bound of the frames any accepted query can look back.
    fn keep(&self) -> usize {
        (self.rate as usize * self.window / 1000).max(self.s100 * (self.window / 100).max(30)) + 2 * self.s100
    }

    fn sample(&mut self, c: usize, x: f64) -> f64 {
        let s = &mut self.fs[c];
        let (a, b) = (&self.a, &self.b);
        let w = x - a[1] * s[0] - a[2] * s[1] - a[3] * s[2] - a[4] * s[3];
        let y = b[0] * w + b[1] * s[0] + b[2] * s[1] + b[3] * s[2] + b[4] * s[3];
        s[3] = s[2];
        s[2] = s[1];
        s[1] = s[0];
        s[0] = w;
        y
    }

    /// Pushes a frame into the interpolators; returns the largest interpolated value per channel.
    fn interpolate(&mut self, buf: &Buf, f: usize, peaks: Option<&mut [f64]>) {
        let factor = factor_for(self.rate);
        if !self.track_tp || factor == 1 {
            return;
        }
        let taps = self.coefs.len();
        self.fir_pos = (self.fir_pos + taps - 1) % taps;
        let mut peaks = peaks;
        for c in 0..self.channels {
            let x = buf.at(f * self.channels + c);
            if !(x.abs() < 1e30) {
                self.tp_unsure[c] = true;
            } else {
                self.amp = self.amp.max(x.abs());
                self.kept_amp = self.kept_amp.max(x.abs());
            }
            self.fir[c][self.fir_pos] = x as f32 as f64;
            if let Some(p) = &mut peaks {
                let h = &self.fir[c];
                if self.tp_unsure[c] && h[..taps].iter().any(|x| !(x.abs() < 1e30)) {
                    continue;
                }
                for ph in 0..factor {
                    let mut y = 0.0;
                    for t in 0..taps {
                        let mut k = self.fir_pos + t;
                        if k >= taps {
                            k -= taps;
                        }
                        y += self.coefs[t][ph] * h[k];
                    }
                    if y.abs() > p[c] {
                        p[c] = y.abs();
                    }
                }
            }
        }
    }

    pub fn add(&mut self, buf: &Buf) -> R {
        if buf.channels() != self.channels || buf.len() % self.channels != 0 {
            return Result::Err(Err::NoMem);
        }
        let frames = buf.frames();
        if frames == 0 {
            return Ok(());
        }
        self.psp = vec![0.0; self.channels];
        let mut ptp = vec![0.0; self.channels];
        let keep = self.keep();
        for f in 0..frames {
            for c in 0..self.channels {
                let x = buf.at(f * self.channels + c);
                self.hash = mix(self.hash, x.to_bits());
                if x.abs() > self.psp[c] {
                    self.psp[c] = x.abs();
                }
                let y = if self.map[c] == Channel::Unused { 0.0 } else { self.sample(c, x) };
                self.filt[c].push(y);
            }
            self.interpolate(buf, f, Some(&mut ptp));
            self.n += 1;
            let s = self.s100;
            if self.n >= 4 * s && self.n % s == 0 {
                if self.has(I) {
                    let e = self.energy_last(4 * s);
                    self.blocks_unsure |= near(e, gate());
                    if !(e < gate()) {
                        self.blocks.push(e);
                        let max = self.history / 100;
                        if !self.has(HIST) && self.blocks.len() > max {
                            self.blocks.remove(0);
                        }
                    }
                }
                if self.has(LRA) && self.n >= 30 * s && self.n % (10 * s) == 0 {
                    let e = self.energy_last(30 * s);
                    self.st_unsure |= near(e, gate());
                    if !(e < gate()) {
                        self.st.push(e);
                        let max = self.history / 3000;
                        if !self.has(HIST) && self.st.len() > max {
                            self.st.remove(0);
                        }
                    }
                }
            }
            if self.filt[0].len() > 2 * keep + 64 {
                for v in &mut self.filt {
                    v.drain(..v.len() - keep);
                }
            }
        }
        for c in 0..self.channels {
            self.sp[c] = self.sp[c].max(self.psp[c]);
            self.tp[c] = self.tp[c].max(ptp[c]);
        }
        self.ptp = ptp;
        Ok(())
    }

    pub fn seed(&mut self, buf: &Buf) -> R {
        if buf.channels() != self.channels || buf.len() % self.channels != 0 {
            return Result::Err(Err::NoMem);
        }
        for f in 0..buf.frames() {
            for c in 0..self.channels {
                let x = buf.at(f * self.channels + c);
                self.hash = mix(self.hash, x.to_bits() ^ 0x5555);
                if self.map[c] != Channel::Unused {
                    self.sample(c, x);
                }
            }
            self.interpolate(buf, f, None);
        }
        Ok(())
    }

    pub fn set_channel(&mut self, c: u32, t: Channel) -> R {
        if c as usize >= self.channels || (t == Channel::DualMono && self.channels != 1) {
            return Result::Err(Err::InvalidChannel);
        }
        self.map[c as usize] = t;
        self.touch(2, c as u64 * 64 + t as u64);
        Ok(())
    }

    pub fn set_channel_map(&mut self, m: &[Channel]) -> R {
        if m.len() != self.channels || (m.contains(&Channel::DualMono) && self.channels != 1) {
            return Result::Err(Err::InvalidChannel);
        }
        self.map = m.to_vec();
        for (i, t) in m.iter().enumerate() {
            self.touch(2, i as u64 * 64 + *t as u64);
        }
        Ok(())
    }

    pub fn change_parameters(&mut self, channels: u32, rate: u32) -> R {
        if channels == 0 || channels > 64 || !(16..=2822400).contains(&rate) {
            return Result::Err(Err::NoMem);
        }
        if channels as usize == self.channels && rate == self.rate {
            return Ok(());
        }
        if channels as usize != self.channels {
            self.channels = channels as usize;
            self.map = default_map(self.channels);
            self.sp = vec![0.0; self.channels];
            self.tp = vec![0.0; self.channels];
            self.tp_unsure = vec![false; self.channels];
            self.kept_amp = 0.0;
        }
        self.rate = rate;
        self.configure();
        self.clear_audio();
        self.touch(3, channels as u64 * 10_000_000 + rate as u64);
        Ok(())
    }

    pub fn set_max_window(&mut self, w: u32) -> R {
        let w = (w as usize).max(if self.has(S) { 3000 } else { 400 });
        if w != self.window {
            self.window = w;
            self.clear_audio();
            self.touch(4, w as u64);
        }
        Ok(())
    }

    pub fn set_max_history(&mut self, h: u32) -> R {
        let h = (h as usize).max(if self.has(S) { 3000 } else { 400 });
        self.history = h;
        if !self.has(HIST) {
            let k = self.blocks.len().saturating_sub(h / 100);
            self.blocks.drain(..k);
            let k = self.st.len().saturating_sub(h / 3000);
            self.st.drain(..k);
        }
        self.touch(5, h as u64);
        Ok(())
    }

    pub fn reset(&mut self) {
        self.clear_filters();
        self.clear_audio();
        self.sp = vec![0.0; self.channels];
        self.tp = vec![0.0; self.channels];
        self.blocks.clear();
        self.st.clear();
        self.blocks_unsure = false;
        self.st_unsure = false;
        self.tp_unsure = vec![false; self.channels];
        self.kept_amp = 0.0;
        self.hash = 0;
        self.touch(6, self.config_hash());
    }

    pub fn config_hash(&self) -> u64 {
        let mut h = mix(self.mode as u64, self.channels as u64 * 10_000_000 + self.rate as u64);
        for t in &self.map {
            h = mix(h, *t as u64);
        }
        mix(mix(h, self.window as u64), self.history as u64)
    }

    /// Weighted mean square of the last `k` frames.
    pub fn energy_last(&self, k: usize) -> f64 {
        let mut sum = 0.0;
        for c in 0..self.channels {
            let w = weight(self.map[c]);
            if w == 0.0 {
                continue;
            }
            let v = &self.filt[c];
            let from = v.len().saturating_sub(k);
            sum += w * v[from..].iter().map(|x| x * x).sum::<f64>();
        }
        sum / k as f64
    }

    pub fn expect_energy(e: f64) -> Exp {
        if e.is_nan() {
            Exp::Nan
        } else {
            Exp::Energy(e)
        }
    }

    pub fn momentary(&self) -> R<Exp> {
        Ok(Self::expect_energy(self.energy_last(4 * self.s100)))
    }

    pub fn shortterm(&self) -> R<Exp> {
        if self.window >= 3000 {
            Ok(Self::expect_energy(self.energy_last(30 * self.s100)))
        } else if self.window <= 2700 {
            Result::Err(Err::InvalidMode)
        } else {
            Ok(Exp::Any)
        }
    }

    /// None: unspecified whether it is accepted.
    pub fn window(&self, w: u32) -> Option<R<Exp>> {
        let frames = self.rate as usize * w as usize / 1000;
        if frames == 0 {
            return Some(Ok(Exp::Any));
        }
        if w as usize <= self.window {
            return Some(Ok(Self::expect_energy(self.energy_last(frames))));
        }
        let cap = (self.rate as usize * self.window / 1000).max(self.s100 * (self.window / 100));
        if w as usize >= self.window + 200 && frames > cap + self.s100 {
            Some(Result::Err(Err::InvalidMode))
        } else {
            None
        }
    }

    fn quantise(v: &[f64]) -> Quantised {
        let mut q = Quantised { energies: Vec::with_capacity(v.len()), ambiguous: false };
        for &e in v {
            let (b, a) = bin_of(e);
            q.ambiguous |= a;
            if let Some(b) = b {
                q.energies.push(bin_centre(b));
            }
        }
        q
    }

    /// Energies of all blocks that passed the absolute gate, as the gating sees them.
    pub fn gating_blocks(&self) -> Quantised {
        let mut q = if self.has(HIST) {
            Self::quantise(&self.blocks)
        } else {
            Quantised { energies: self.blocks.clone(), ambiguous: false }
        };
        q.ambiguous |= self.blocks_unsure;
        q
    }

    pub fn range_blocks(&self) -> Quantised {
        let mut q = if self.has(HIST) {
            Self::quantise(&self.st)
        } else {
            Quantised { energies: self.st.clone(), ambiguous: false }
        };
        q.ambiguous |= self.st_unsure;
        q
    }

    /// (loudness_global, relative_threshold, gating_block_count_and_energy)
    pub fn integrated(&self) -> (Exp, Exp, Option<Gated>) {
        let q = self.gating_blocks();
        integrated_of(&q)
    }

    pub fn range(&self) -> Exp {
        let q = self.range_blocks();
        if q.ambiguous {
            return Exp::Any;
        }
        range(&q.energies)
    }

    pub fn true_peak(&self, c: usize) -> Exp {
        self.peak_exp(c, self.sp[c], self.tp[c], self.kept_amp)
    }
    pub fn prev_true_peak(&self, c: usize) -> Exp {
        self.peak_exp(c, self.psp[c], self.ptp[c], self.amp)
    }
    fn peak_exp(&self, c: usize, sp: f64, tp: f64, amp: f64) -> Exp {
        if self.tp_unsure[c] {
            let lo = sp.max(tp);
            return Exp::AtLeast(if lo.is_finite() { lo - 6e-6 * lo } else { lo });
        }
        if tp <= sp && factor_for(self.rate) == 1 {
            return Exp::Val(sp, 1e-6 * sp);
        }
        Exp::Val(sp.max(tp), 6e-6 * amp.max(sp) + 1e-36)
    }
}

pub fn integrated_of(q: &Quantised) -> (Exp, Exp, Option<Gated>) {
    let unsure = Gated { ambiguous: true, ..Default::default() };
    if q.ambiguous {
        return (Exp::Any, Exp::Any, Some(unsure));
    }
    match gated(q.energies.iter().copied()) {
        None => (Exp::Val(f64::NEG_INFINITY, 0.0), Exp::Val(-70.0, 1e-9), None),
        Some(g) if g.nan => (Exp::Nan, Exp::Nan, Some(g)),
        Some(g) => {
            let thr = Exp::Energy(g.threshold);
            if g.ambiguous {
                (Exp::Any, thr, Some(g))
            } else {
                (Exp::Energy(g.sum / g.count as f64), thr, Some(g))
            }
        }
    }
}
